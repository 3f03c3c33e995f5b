From 22a93029de64df31831faac509d0de26c1203cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:49 +0000
Subject: [PATCH 01/19] fix: report the errors of the most likely alternative,
 not of the second one

When the first failure in recovery order was anything else than a single
expected-found error, its errors were dropped and those of the next failure
were returned instead.
---
 src/algorithm.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/algorithm.rs b/src/algorithm.rs
index dbefab8..516c6ae 100644
--- a/src/algorithm.rs
+++ b/src/algorithm.rs
@@ -360,7 +360,6 @@ macro_rules! alternate {
             }
             parser::Result::Failed(last_token_matched, vec![e])
         } else {
-            let (last_token_matched, es, _) = failures.into_iter().next().unwrap();
             parser::Result::Failed(last_token_matched, es)
         }
     }};
@@ -435,7 +434,6 @@ where
         }
         parser::Result::Failed(last_token_matched, vec![e])
     } else {
-        let (last_token_matched, es, _) = failures.into_iter().next().unwrap();
         parser::Result::Failed(last_token_matched, es)
     }
 }
-- 
2.43.0


From de83e19dbfcfe25312a2baa934248a732bc1ffd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:37 +0000
Subject: [PATCH 02/19] fix: report the errors repetitions recovered from

A repetition that recovered while it was below its minimum and then ended
because no further separator or item matched reported plain success, and
dropped the errors.
---
 src/algorithm.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/algorithm.rs b/src/algorithm.rs
index 516c6ae..2f50c34 100644
--- a/src/algorithm.rs
+++ b/src/algorithm.rs
@@ -217,7 +217,7 @@ where
                         // fail.
                     } else if output.len() >= minimum {
                         // We've already matched enough, we're done.
-                        return parser::Result::Success(output);
+                        break;
                     } else {
                         // We've not matched the minimum amount of repetitions
                         // yet. Getting here also means recovery failed. We
@@ -261,7 +261,7 @@ where
                                 stream.restore(&state);
                             }
                         }
-                        return parser::Result::Success(output);
+                        break;
                     } else {
                         // We've not matched the minimum amount of repetitions
                         // yet. Getting here also means recovery failed. We
-- 
2.43.0


From 15a27a97fd3b0c81d3972c5a5ce8bc49cf12479c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:37 +0000
Subject: [PATCH 03/19] fix: accept a leading separator when no items are
 parsed

allow_leading() documents that the separator is allowed even if no items are
parsed, but it was given back in that case.
---
 src/algorithm.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/algorithm.rs b/src/algorithm.rs
index 2f50c34..d029f5e 100644
--- a/src/algorithm.rs
+++ b/src/algorithm.rs
@@ -257,7 +257,9 @@ where
                         // however need to restore the state to before the
                         // separator, which already matched if there was one.
                         if let Some(state) = before_separator {
-                            if !allow_trailing {
+                            // A leading separator stays, also when there are
+                            // no items.
+                            if !allow_trailing && !output.is_empty() {
                                 stream.restore(&state);
                             }
                         }
-- 
2.43.0


From 576dffd9a40b5c7902c3cddae514fb91aa546fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:37 +0000
Subject: [PATCH 04/19] fix: keep the errors that were recovered from in
 try_map()

Mapping a recovered result successfully turned it into a plain success.
---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 0fffbf0..921b5ae 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -90,7 +90,7 @@ impl<O, E> Result<O, E> {
         match self {
             Result::Success(o) => map(o),
             Result::Recovered(o, mut es) => match map(o) {
-                Result::Success(x) => Result::Success(x),
+                Result::Success(x) => Result::Recovered(x, es),
                 Result::Recovered(x, es2) => {
                     es.extend(es2);
                     Result::Recovered(x, es)
-- 
2.43.0


From 807963c1adc3a4671a952abe5349b3aab0294a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:37 +0000
Subject: [PATCH 05/19] fix: restore the stream when a try_map() fails for lack
 of recovery

Failing parsers must leave the stream where they started.
---
 src/combinator.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/combinator.rs b/src/combinator.rs
index d267a32..d3c2e11 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -290,6 +290,7 @@ where
                     if enable_recovery {
                         parser::Result::Recovered(o, es)
                     } else {
+                        stream.restore(&initial);
                         parser::Result::Failed(stream.index_at(&initial), es)
                     }
                 }
-- 
2.43.0


From 15b584524e60fc19ec0bd08f7fa4f78b4f8f1338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:37 +0000
Subject: [PATCH 06/19] fix: keep the current position in save_at()

Looking ahead may drop buffered tokens that no marker protects, including the
current one; the saved buffer index was stale after that.
---
 src/stream.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/stream.rs b/src/stream.rs
index f423e90..ec57fd0 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -105,10 +105,12 @@ where
     /// Saves the location at the given current or future token index. Panics if
     /// the given token index lies before the current one.
     pub fn save_at(&mut self, index: usize) -> SavedState {
-        let restore = (self.index, self.index_in_buffer);
+        // Advancing may drop tokens from the front of the buffer, so the current
+        // position has to be kept by means of a marker as well.
+        let current = self.save();
         self.advance_to(index);
         let state = self.save();
-        (self.index, self.index_in_buffer) = restore;
+        self.restore(&current);
         state
     }
 
-- 
2.43.0


From 38007853d43f3162111c3a7b18b449ce41f123b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:37 +0000
Subject: [PATCH 07/19] fix: do not advance past EOF in advance_to()

Once the EOF sentinel had been buffered, it was counted as a token: the stream
moved past it, reported success, and polled the finished source again.
---
 src/stream.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/stream.rs b/src/stream.rs
index ec57fd0..60d0764 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -346,7 +346,13 @@ where
 
         // Determine how many tokens we can advance by without refilling the
         // buffer, and do that.
-        let already_buffered = usize::min(self.buffer.len() - self.index_in_buffer, amount);
+        let mut buffered = self.buffer.len() - self.index_in_buffer;
+        if self.source_at_eof {
+            // The last entry of the buffer is the EOF sentinel, which cannot
+            // be advanced past.
+            buffered -= 1;
+        }
+        let already_buffered = usize::min(buffered, amount);
         self.index += already_buffered;
         self.index_in_buffer += already_buffered;
         amount -= already_buffered;
-- 
2.43.0


From 96a10c18070ab6ca418cdc7ca75c09ff772f681a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:37 +0000
Subject: [PATCH 08/19] fix: allow queries at a saved state whose token is not
 buffered yet

token_at(), location_tracker_at(), location_at() and spanning_back_to()
panicked for a state saved just past the buffered tokens once the stream had
been moved back.
---
 src/stream.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/stream.rs b/src/stream.rs
index 60d0764..f026650 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -240,6 +240,15 @@ where
             return self.token();
         }
 
+        // A state saved just past the buffered tokens refers to a token that has
+        // not been fetched yet.
+        if *saved_state.index == self.start_of_buffer() + self.buffer.len() {
+            let current = self.save();
+            self.restore(saved_state);
+            self.make_next_available();
+            self.restore(&current);
+        }
+
         // Return the requested token from the buffer.
         assert!(*saved_state.index >= self.start_of_buffer());
         self.buffer[*saved_state.index - self.start_of_buffer()]
@@ -275,8 +284,13 @@ where
         }
 
         // Return the requested token from the buffer.
+        // If that one has not been fetched yet, it is the next one to come from
+        // the source.
         assert!(*saved_state.index >= self.start_of_buffer());
-        &self.buffer[*saved_state.index - self.start_of_buffer()].1
+        self.buffer
+            .get(*saved_state.index - self.start_of_buffer())
+            .map(|(_, x)| x)
+            .unwrap_or(&self.source_location)
     }
 
     /// Returns the current location.
-- 
2.43.0


From 33431bcbaad53ca664d09cedfab4cba659d842cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:37 +0000
Subject: [PATCH 09/19] fix: do not panic when a failing parser reports index 0

Failed(0, _) is documented to mean that nothing matched, wherever the parser
started; recovery tried to move the stream backwards to it.
---
 src/combinator.rs | 3 ++-
 src/recovery.rs   | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/combinator.rs b/src/combinator.rs
index d3c2e11..7014229 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -697,7 +697,8 @@ where
                     parser::Result::Failed(last_token_matched, errors)
                 } else {
                     let started_at = stream.save();
-                    let mut failed_at = stream.save_at(last_token_matched);
+                    let mut failed_at =
+                        stream.save_at(usize::max(last_token_matched, stream.index()));
                     let recovery = recovery::Recover::recover(
                         &self.strategy,
                         &self.parser,
diff --git a/src/recovery.rs b/src/recovery.rs
index b83d034..29697de 100644
--- a/src/recovery.rs
+++ b/src/recovery.rs
@@ -957,7 +957,7 @@ where
                     if !self.silent {
                         errors.extend(es);
                     }
-                    *failed_at = stream.save_at(i);
+                    *failed_at = stream.save_at(usize::max(i, stream.index()));
                     None
                 }
             })
@@ -1041,7 +1041,7 @@ where
                     if !self.silent {
                         errors.extend(es);
                     }
-                    *failed_at = stream.save_at(i);
+                    *failed_at = stream.save_at(usize::max(i, stream.index()));
                     None
                 }
             })
-- 
2.43.0


From 77cf791365b7362ef8f33d4a146c2e40bb308b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:56 +0000
Subject: [PATCH 10/19] fix: allow rules that match nothing next to something
 else

---
 pangram/bootstrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pangram/bootstrap.py b/pangram/bootstrap.py
index fa1f501..ac8b8a2 100644
--- a/pangram/bootstrap.py
+++ b/pangram/bootstrap.py
@@ -99,7 +99,7 @@ class Node:
         for child in children:
             if span is None:
                 span = child.span
-            else:
+            elif child.span is not None:
                 span = span + child.span
         return cls(name, children, span)
 
-- 
2.43.0


From 32feb668f9cb61c916a66f9e3844c130f313f525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:56 +0000
Subject: [PATCH 11/19] fix: pass the arguments of parse() in the right order

---
 pangram/bootstrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pangram/bootstrap.py b/pangram/bootstrap.py
index ac8b8a2..a5a0ea3 100644
--- a/pangram/bootstrap.py
+++ b/pangram/bootstrap.py
@@ -455,7 +455,7 @@ class AstGrammar:
         return self.grammar_parsers[name].parse(tokens)
 
     def tokenize_and_parse(self, s, name=None):
-        return self.parse(name, list(self.tokenize(s)))
+        return self.parse(list(self.tokenize(s)), name)
 
 
 def chumsky_construct(elements, name_lookup, case_convert, type_name, variant_names):
-- 
2.43.0


From f77a0d0681fca64bf7ef7f739f11c2c2f9957a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:42 +0000
Subject: [PATCH 12/19] fix: match any character with [^] and none with []

---
 pangram/bootstrap.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pangram/bootstrap.py b/pangram/bootstrap.py
index a5a0ea3..c6ca125 100644
--- a/pangram/bootstrap.py
+++ b/pangram/bootstrap.py
@@ -1188,11 +1188,11 @@ class AstCharacterSet:
                 body += AstLiteral.escape_regex(a)
             else:
                 body += AstLiteral.escape_regex(a) + "-" + AstLiteral.escape_regex(b)
+        if not body:
+            # An empty set is not a valid regex, and . does not match newlines.
+            return r"[\s\S]" if self.inverted else r"[^\s\S]"
         if self.inverted:
-            if body:
-                return f"[^{body}]"
-            else:
-                return "."
+            return f"[^{body}]"
         return f"[{body}]"
 
     def as_parser(self, parser_lookup, case_convert):
-- 
2.43.0


From 10c0ca393b56fb95508cb832219f065c99501162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:42 +0000
Subject: [PATCH 13/19] fix: compare character sets by their ranges

---
 pangram/bootstrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pangram/bootstrap.py b/pangram/bootstrap.py
index c6ca125..9f4ca03 100644
--- a/pangram/bootstrap.py
+++ b/pangram/bootstrap.py
@@ -1217,7 +1217,7 @@ class AstCharacterSet:
         return None
 
     def __eq__(self, other):
-        return type(self) == type(other) and self.s == other.s
+        return type(self) == type(other) and self.inverted == other.inverted and self.ranges == other.ranges
 
     def __hash__(self):
         return hash((type(self), self.inverted, *self.ranges))
-- 
2.43.0


From 79456ed3cabd2c1dd8e0cb3a48f8d74365aa0b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:46 +0000
Subject: [PATCH 14/19] fix: allow grammars without a whitespace rule

---
 pangram/bootstrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pangram/bootstrap.py b/pangram/bootstrap.py
index 9f4ca03..4d836dc 100644
--- a/pangram/bootstrap.py
+++ b/pangram/bootstrap.py
@@ -426,7 +426,7 @@ class AstGrammar:
             is_token = used_rule in token_rule_map
             if is_token and is_grammar:
                 raise ValueError(f"{used_rule} is defined as both a grammar and token rule")
-            if not is_token and not is_grammar:
+            if not is_token and not is_grammar and used_rule != "_":
                 raise ValueError(f"{used_rule} is not defined")
 
         # Build regular expressions for the token rules.
-- 
2.43.0


From 02372d293cef15e6287eb40c322c1a935cb405bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:02 +0000
Subject: [PATCH 15/19] fix: refuse different literals of the same name

---
 pangram/bootstrap.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pangram/bootstrap.py b/pangram/bootstrap.py
index 4d836dc..7741390 100644
--- a/pangram/bootstrap.py
+++ b/pangram/bootstrap.py
@@ -351,6 +351,7 @@ class AstGrammar:
         # Convert from parse tree to AST for all the rules.
         grammar_rules = [] # [(name, doc, alter_name, alter_doc, rule)]
         token_rules = [] # [(name, doc, rule)]
+        implicit_tokens = {} # {name: literal}
         used_rules = set("_") # names of rules reachable from any grammar rule
         for rule in node.data:
             doc = self._clean_doc(rule.first("Doc"))
@@ -372,7 +373,11 @@ class AstGrammar:
                         sub_alter_name = case_convert(self._derive_name(sub_alter))
                     concat = AstConcatenation.from_parse_tree(sub_alter, case_convert)
                     if rule.name == "Rule.GrammarRule":
-                        token_rules.extend(concat.gather_implicit_tokens(case_convert))
+                        for implicit_token in concat.gather_implicit_tokens(case_convert):
+                            implicit_name, _, literal = implicit_token
+                            if implicit_tokens.setdefault(implicit_name, literal) != literal:
+                                raise ValueError(f"literals {implicit_tokens[implicit_name].s!r} and {literal.s!r} are both named {implicit_name}")
+                            token_rules.append(implicit_token)
                         for used_name in concat.gather_used_tokens(case_convert):
                             used_rules.add(used_name)
                         grammar_rules.append((name, doc, sub_alter_name, alter_doc, concat))
-- 
2.43.0


From 620707d771e3e236a0ade2af23fd37043e32ed3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:28 +0000
Subject: [PATCH 16/19] fix: generate Rust for alternations in groups

The traversal of an alternation ignored the visitor's errors (and the code did
not compile), its type lacked the generics, and alternations within its
alternatives were not defined.
---
 pangram/bootstrap.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pangram/bootstrap.py b/pangram/bootstrap.py
index 7741390..f535fc0 100644
--- a/pangram/bootstrap.py
+++ b/pangram/bootstrap.py
@@ -687,7 +687,7 @@ class AstAlternation:
 
     def as_chumsky_type(self, name_lookup, case_convert):
         if len(self.elements) > 1:
-            return self.rust_enum_name
+            return f"{self.rust_enum_name}<'i, S>"
         return self.elements[0].as_chumsky_type(name_lookup, case_convert)
 
     def as_chumsky_tuple_length(self):
@@ -695,7 +695,7 @@ class AstAlternation:
 
     def define_chumsky_types(self, fil, name_lookup, case_convert):
         if len(self.elements) > 1:
-            return chumsky_define(
+            chumsky_define(
                 fil,
                 self.elements,
                 name_lookup,
@@ -712,7 +712,10 @@ class AstAlternation:
 
     def generate_traverse(self, name_lookup, case_convert, var_names, mutable):
         assert len(var_names) == 1
-        yield f"{var_names[0]}.traverse(visitor)"
+        if mutable:
+            yield f"{var_names[0]}.traverse_mut(visitor)?;"
+        else:
+            yield f"{var_names[0]}.traverse(visitor)?;"
 
     def last_terminal(self, name_lookup, case_convert):
         if not self.elements:
-- 
2.43.0


From 44dffdf7ffcc4ebf4c9ecf8323d89ae57a8453ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:28 +0000
Subject: [PATCH 17/19] fix: generate traversal of sequences within sequences

---
 pangram/bootstrap.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pangram/bootstrap.py b/pangram/bootstrap.py
index f535fc0..acb8f74 100644
--- a/pangram/bootstrap.py
+++ b/pangram/bootstrap.py
@@ -794,6 +794,15 @@ class AstConcatenation:
             element.define_chumsky_types(fil, name_lookup, case_convert)
 
     def generate_traverse(self, name_lookup, case_convert, var_names, mutable):
+        if len(var_names) == 1:
+            # A sequence within a sequence: take the tuple apart first.
+            child_var_names = [f"x{i+1}" for i in range(len(self.elements))]
+            yield "{"
+            yield f"    let ({', '.join(child_var_names)}) = {var_names[0]};"
+            for line in self.generate_traverse(name_lookup, case_convert, child_var_names, mutable):
+                yield f"    {line}"
+            yield "}"
+            return
         assert len(var_names) == len(self.elements)
         for element, var_name in zip(self.elements, var_names):
             yield from element.generate_traverse(name_lookup, case_convert, [var_name], mutable)
-- 
2.43.0


From 0e03b44c0ec668c6e2cdf8ad6fdd165b200306b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:30 +0000
Subject: [PATCH 18/19] fix: do not reserve room for a minimum number of items
 up front

at_least(n) and exactly(n) with a large n panicked with a capacity overflow or
aborted, whatever the input, instead of just not matching.
---
 src/algorithm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithm.rs b/src/algorithm.rs
index d029f5e..6a532fb 100644
--- a/src/algorithm.rs
+++ b/src/algorithm.rs
@@ -178,7 +178,7 @@ where
     let mut recovery: Option<Vec<C::Error>> = None;
 
     // Gather the results in a vector.
-    let mut output = Vec::with_capacity(minimum);
+    let mut output = Vec::new();
 
     // Parse items.
     loop {
-- 
2.43.0


From b0c7a0a813e42f59d8eceb2ea56505b885b03a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:30 +0000
Subject: [PATCH 19/19] fix: let the generated tokenizer skip whole characters

It panicked on text that no token matches and that starts with a character of
more than one byte.
---
 pangram/bootstrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pangram/bootstrap.py b/pangram/bootstrap.py
index acb8f74..6e9725f 100644
--- a/pangram/bootstrap.py
+++ b/pangram/bootstrap.py
@@ -1628,7 +1628,7 @@ mod types {
             // Advance by at least one character, even if nothing matched, in
             // an attempt to recover from errors.
             if length == 0 {
-                length = 1;
+                length = self.remain.chars().next().map_or(0, char::len_utf8);
             }
 
             // Generate the token and seek past it.
-- 
2.43.0

