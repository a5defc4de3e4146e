From 294e0649bbc33e9f1131ec93caa06d10ab80fae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:34 +0000
Subject: [PATCH 01/13] fix: keep the DFA alphabet disjoint when a label
 overlaps several ranges

add_range stored the low piece in place although, when it comes from the
new range, it may overlap ranges further down the list. The alphabet then
contained overlapping labels and the DFA took the wrong edge, e.g. the token
[a-e]1|[a-i]2|[c-d]3|[d-f]4 did not lex "d3".
---
 src/lex/dfa.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/lex/dfa.rs b/src/lex/dfa.rs
index c2d8e45..2522828 100644
--- a/src/lex/dfa.rs
+++ b/src/lex/dfa.rs
@@ -337,11 +337,12 @@ fn add_range(range: &Match, start_index: usize, disjoint_ranges: &mut Vec<Match>
             assert!(low_range.is_disjoint(&max_range));
             assert!(mid_range.is_disjoint(&max_range));
 
-            // Replace the existing range with the low range, and then
-            // add the mid and max ranges in. (The low range may be
-            // empty, but we'll prune that out later.)
-            disjoint_ranges[index] = low_range;
-            add_range(&mid_range, index + 1, disjoint_ranges);
+            // Replace the existing range with the mid range (it is part of
+            // the existing range, so it is disjoint from all the others), and
+            // then add the low and max ranges in: those may overlap the ranges
+            // that come after this one.
+            disjoint_ranges[index] = mid_range;
+            add_range(&low_range, index + 1, disjoint_ranges);
             add_range(&max_range, index + 1, disjoint_ranges);
         }
 
-- 
2.43.0


From 29a9d77c71a8d623a24092d2a56ad9a5b1aa2959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:34 +0000
Subject: [PATCH 02/13] fix: two items shifting the same terminal are not a
 conflict

A state holding S -> . a b and S -> . a c panicked with "Conflict", although
both items ask for the same shift.
---
 src/lalr/table.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lalr/table.rs b/src/lalr/table.rs
index f54079e..dd39d0d 100644
--- a/src/lalr/table.rs
+++ b/src/lalr/table.rs
@@ -136,7 +136,11 @@ pub fn make_lalr_tables<'ast>(
                     };
 
                     match action.entry((i as u32, token_idx)) {
-                        Entry::Vacant(entry) => entry.insert(Action::Shift(j as u32)),
+                        Entry::Vacant(entry) => {
+                            entry.insert(Action::Shift(j as u32));
+                        }
+                        // Several items of the set may shift the same terminal
+                        Entry::Occupied(entry) if *entry.get() == Action::Shift(j as u32) => (),
                         Entry::Occupied(_) => panic!("Conflict ({}, {:?})", i, token_idx),
                     };
                 }
-- 
2.43.0


From f92b5ce042084a3280587091a2a11cccf4d9ebf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:13 +0000
Subject: [PATCH 03/13] fix: find the target of a merged state by its core

The goto of a merged (LALR) set carries the union of the lookaheads of its
LR(1) sets, so it needs not be equal to any LR(1) or LALR set. Looking it up
by equality dropped the shift or goto, and the parser rejected sentences of
the grammar.
---
 src/lalr/item.rs  | 5 +++++
 src/lalr/table.rs | 7 ++++---
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/lalr/item.rs b/src/lalr/item.rs
index 75d5d57..56e427a 100644
--- a/src/lalr/item.rs
+++ b/src/lalr/item.rs
@@ -162,6 +162,11 @@ impl ItemSet {
         h.finish()
     }
 
+    /// Whether both item sets have the same core (the same items, without lookaheads)
+    pub fn same_core(&self, other: &Self) -> bool {
+        self.0.keys().eq(other.0.keys())
+    }
+
     /// Form a union of two item sets.
     ///
     /// It is incorrect to call this with two item sets that don't share the same core
diff --git a/src/lalr/table.rs b/src/lalr/table.rs
index dd39d0d..3b59174 100644
--- a/src/lalr/table.rs
+++ b/src/lalr/table.rs
@@ -109,7 +109,8 @@ pub fn make_lalr_tables<'ast>(
         let lr_idx = match lr_sets.get_index_of(&goto_ia) {
             Some(i) => i,
             None => {
-                return lalr_sets.get_index_of(&goto_ia);
+                // The goto of a merged set needs not be one of the LR(1) sets
+                return lalr_sets.iter().position(|set| set.same_core(&goto_ia));
             }
         };
         lr_to_lalr.get(&lr_idx).cloned()
@@ -181,7 +182,7 @@ pub fn make_lalr_tables<'ast>(
             let goto_ia = state.goto(&Symbol::NonTerminal(*production_name), grammar);
 
             // lalr state = I1 U I2 U ... etc where the I's are lr(1) states with same core merged
-            // so we much check if goto_ia == lalr state, or
+            // so goto_ia needs not be an lr(1) state: it goes to the lalr state with the same core
             match lr_sets.get_index_of(&goto_ia) {
                 Some(j) => {
                     goto.insert(
@@ -189,7 +190,7 @@ pub fn make_lalr_tables<'ast>(
                         *lr_to_lalr.get(&j).expect("LR -> LALR"),
                     );
                 }
-                None => match lalr_sets.get_index_of(&goto_ia) {
+                None => match lalr_sets.iter().position(|set| set.same_core(&goto_ia)) {
                     Some(j) => {
                         goto.insert((i as u32, *production_name), j);
                     }
-- 
2.43.0


From 0fcc6126a2e301aa0014ee002d95c618b4b75ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:13 +0000
Subject: [PATCH 04/13] fix: lex what follows the last accepting state when the
 input ends

With the tokens a, b and abc, "ab" lexed as a alone: when the input ended
within a longer match, the characters after the last accepting state were
dropped instead of being lexed again.
---
 src/lex/lex.rs | 26 +++++++++-----------------
 1 file changed, 9 insertions(+), 17 deletions(-)

diff --git a/src/lex/lex.rs b/src/lex/lex.rs
index 72b5cd8..c0daa2c 100644
--- a/src/lex/lex.rs
+++ b/src/lex/lex.rs
@@ -164,12 +164,14 @@ impl Lex {
 
         let mut last_accepting_state: Option<(usize, StateIdx)> = None;
 
-        while forward < chars.len() {
-            let c = chars[forward];
-
-            let matching_edge = match self.dfa.edge_iter(state_idx) {
-                Some(mut edge_iter) => edge_iter.find(|edge| edge.label.matches(c)),
-                None => None,
+        // The end of the input ends the current lexeme like a character without
+        // a matching edge does: what follows the last accepting state is lexed again
+        while forward < chars.len() || last_accepting_state.is_some() {
+            let c = chars.get(forward).copied();
+
+            let matching_edge = match (c, self.dfa.edge_iter(state_idx)) {
+                (Some(c), Some(mut edge_iter)) => edge_iter.find(|edge| edge.label.matches(c)),
+                _ => None,
             };
 
             match matching_edge {
@@ -198,7 +200,7 @@ impl Lex {
                         state_idx = StateIdx(0);
 
                         last_accepting_state = None;
-                    } else if Self::is_whitespace(c) && forward == lexeme_begin {
+                    } else if c.map_or(false, Self::is_whitespace) && forward == lexeme_begin {
                         forward += 1;
                         lexeme_begin += 1;
                     } else {
@@ -208,16 +210,6 @@ impl Lex {
             }
         }
 
-        if let Some((_last_accepting_idx, last_accepting_state_idx)) = last_accepting_state {
-            println!("LEXEME_BEGIN: {} FORWARD: {}", lexeme_begin, _last_accepting_idx);
-            tokens.push(self.make_tok(
-                input,
-                lexeme_begin,
-                _last_accepting_idx,
-                last_accepting_state_idx,
-            ));
-        }
-
         tokens
     }
 
-- 
2.43.0


From 73e9610adbfdab69f80f259b3c5d0e5c71a84c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:13 +0000
Subject: [PATCH 05/13] fix: lexeme positions are char positions, not byte
 positions

make_tok sliced the input with char positions: with non-ASCII input the
token value was wrong, or slicing panicked.
---
 src/lex/lex.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lex/lex.rs b/src/lex/lex.rs
index c0daa2c..c490ce1 100644
--- a/src/lex/lex.rs
+++ b/src/lex/lex.rs
@@ -227,7 +227,8 @@ impl Lex {
                 ..
             }) => {
                 // let val = char_vec.iter().collect::<String>();
-                let val = input[start..(end + 1)].to_string();
+                // `start` and `end` count chars, not bytes
+                let val: String = input.chars().skip(start).take(end + 1 - start).collect();
                 Token::new_with_val(name.clone(), val)
             }
             Some(TokenDef {
-- 
2.43.0


From edaddb90981fc1417990e6dddf34d21ded7ecfae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:13 +0000
Subject: [PATCH 06/13] fix: DFA::test accepts exactly the language of the
 automaton

simulate did not check that the state it stopped in is accepting, kept going
after a character without an edge when the state has no edges at all, and
could not accept the empty string because the start state had no NFA states;
test compared a count of chars with a length in bytes.
---
 src/lex/dfa.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/lex/dfa.rs b/src/lex/dfa.rs
index 2522828..138705a 100644
--- a/src/lex/dfa.rs
+++ b/src/lex/dfa.rs
@@ -101,7 +101,7 @@ impl DFA {
 
     pub fn test(&self, s: &str) -> bool {
         match self.simulate(s) {
-            Some(eaten) => eaten == s.len(),
+            Some(eaten) => eaten == s.chars().count(),
             _ => false,
         }
     }
@@ -111,18 +111,19 @@ impl DFA {
 
         let mut eaten = 0;
         for c in s.chars() {
-            if let Some(mut edge_iter) = self.edge_iter(state_idx) {
-                match edge_iter.find(|edge| edge.label.matches(c)) {
-                    Some(edge) => {
-                        eaten += 1;
-                        state_idx = edge.to;
-                    }
-                    None => break,
+            match self
+                .edge_iter(state_idx)
+                .and_then(|mut edge_iter| edge_iter.find(|edge| edge.label.matches(c)))
+            {
+                Some(edge) => {
+                    eaten += 1;
+                    state_idx = edge.to;
                 }
+                None => break,
             }
         }
 
-        if self.dfa_to_nfa.contains_key(&state_idx) {
+        if self.dfa_state_is_accepting(state_idx) {
             Some(eaten)
         } else {
             None
@@ -166,7 +167,7 @@ impl DFABuilder {
         let mut d_states = vec![Self::hashset_to_btreeset(
             nfa.epsilon_closure([NFA::START_IDX].into()),
         )];
-        let mut dfa_to_nfa = BTreeMap::new();
+        let mut dfa_to_nfa = BTreeMap::from([(DFA::START_IDX, d_states[0].clone())]);
 
         loop {
             // Loop while there is an unmarked state set
-- 
2.43.0


From cafd677fe1abb2e3c9809f1a253b6c964d16a852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:57 +0000
Subject: [PATCH 07/13] fix: FIRST terminates on left-recursive grammars

first_of_symbol expanded a left-recursive non-terminal forever and overflowed
the stack, so no left-recursive grammar could be used.
---
 src/lalr/first.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/lalr/first.rs b/src/lalr/first.rs
index b77ba6d..9b605c1 100644
--- a/src/lalr/first.rs
+++ b/src/lalr/first.rs
@@ -1,6 +1,6 @@
 use std::collections::BTreeSet;
 
-use crate::parser::{Grammar, Symbol};
+use crate::parser::{ast::Ident, Grammar, Symbol};
 
 pub fn first<'ast, I>(
     // bump: &'ast Bump,
@@ -11,10 +11,12 @@ where
     I: Iterator<Item = &'ast Symbol<'ast>>,
 {
     let mut set = BTreeSet::new();
+    // Non-terminals being expanded
+    let mut expanding = BTreeSet::new();
 
     let mut prev_has_epsilon = true;
     for symbol in symbols {
-        let _ = first_of_symbol(grammar, &mut set, symbol);
+        let _ = first_of_symbol(grammar, &mut set, &mut expanding, symbol);
         prev_has_epsilon = set.remove(&Symbol::Epsilon);
         if !prev_has_epsilon {
             break;
@@ -32,6 +34,7 @@ where
 fn first_of_symbol<'ast>(
     grammar: &'ast Grammar<'ast>,
     set: &mut BTreeSet<&'ast Symbol<'ast>>,
+    expanding: &mut BTreeSet<Ident<'ast>>,
     symbol: &'ast Symbol<'ast>,
 ) -> bool {
     let non_terminal = match symbol.as_non_terminal() {
@@ -42,10 +45,15 @@ fn first_of_symbol<'ast>(
         }
     };
 
+    // Left recursion: this non-terminal is being expanded already
+    if !expanding.insert(*non_terminal) {
+        return false;
+    }
+
     let mut added_epsilon = false;
     for (_, production) in grammar.production_iter(*non_terminal) {
         'input_token_iter: for input_token in production.input_tokens.iter() {
-            if !first_of_symbol(grammar, set, input_token) {
+            if !first_of_symbol(grammar, set, expanding, input_token) {
                 break 'input_token_iter;
             } else {
                 added_epsilon = true;
@@ -53,5 +61,7 @@ fn first_of_symbol<'ast>(
         }
     }
 
+    expanding.remove(non_terminal);
+
     added_epsilon
 }
-- 
2.43.0


From d891950850cae7b7a1294e7365fcb41020b4bdb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:57 +0000
Subject: [PATCH 08/13] fix: emit a space in the check of a named regex symbol

`infer x extendsstring` is not valid Typescript.
---
 src/codegen/parse_gen.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codegen/parse_gen.rs b/src/codegen/parse_gen.rs
index ec90cc2..49f8db6 100644
--- a/src/codegen/parse_gen.rs
+++ b/src/codegen/parse_gen.rs
@@ -514,7 +514,7 @@ export type Token =
                             named_sym.name
                         ));
                         cond_stack.push(format!(
-                            "__{}['token']['value'] extends infer {} extendsstring",
+                            "__{}['token']['value'] extends infer {} extends string",
                             named_sym.name, named_sym.name
                         ));
                         else_stack.push(format!(
-- 
2.43.0


From 24157e448a11357a0bfd42c868c6824917f3a849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:57 +0000
Subject: [PATCH 09/13] fix: emit the else branches innermost first

The conditions of an action nest from the first to the last, so the first
else branch written belongs to the last condition. The messages were paired
with the wrong conditions.
---
 src/codegen/parse_gen.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codegen/parse_gen.rs b/src/codegen/parse_gen.rs
index 49f8db6..68f9970 100644
--- a/src/codegen/parse_gen.rs
+++ b/src/codegen/parse_gen.rs
@@ -536,7 +536,7 @@ export type Token =
             }
             // w.write_str(self.action_impl.code)?;
             w.write_str(&call_impl)?;
-            for otherwise in else_stack.into_iter() {
+            for otherwise in else_stack.into_iter().rev() {
                 w.write_str(" : ")?;
                 w.write_str(&otherwise)?;
             }
-- 
2.43.0


From fdfa723b8d497954dcab8820086e74568a15b505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:28 +0000
Subject: [PATCH 10/13] fix: compile an empty regex inside another one

NFA::from_regex panicked on an empty alternative, group or repetition, as in
(a|)b, because only the top level expects that there is no state.
---
 src/lex/nfa.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lex/nfa.rs b/src/lex/nfa.rs
index a5fb31f..2a18dee 100644
--- a/src/lex/nfa.rs
+++ b/src/lex/nfa.rs
@@ -102,7 +102,8 @@ impl NFA {
 
     fn compile(&mut self, regex: &RegexHir, accept: StateIdx) -> OptionUsize<StateIdx> {
         match regex.kind() {
-            HirKind::Empty => OptionUsize::none(),
+            // Matches without consuming anything
+            HirKind::Empty => OptionUsize::some(accept),
             HirKind::Literal(lit) => self.compile_match(
                 match lit {
                     Literal::Unicode(c) => Match::char(*c),
-- 
2.43.0


From 8c0a9b951773f25dfc83c2334284d8f330732d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:28 +0000
Subject: [PATCH 11/13] fix: escape token names in the emitted Typescript
 strings

Token names are the text of literals and regexes. A quote in one ended the
emitted string (a regex of quoted strings gave invalid Typescript), and a
backslash changed the name.
---
 src/codegen.rs           | 16 ++++++++++++++++
 src/codegen/lex_gen.rs   | 13 ++++++++-----
 src/codegen/parse_gen.rs |  7 ++++---
 3 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/src/codegen.rs b/src/codegen.rs
index 89ddac7..9f832ab 100644
--- a/src/codegen.rs
+++ b/src/codegen.rs
@@ -1,2 +1,18 @@
 pub mod lex_gen;
 pub mod parse_gen;
+
+/// Escape `s` for a Typescript string literal, quoted with either `'` or `"`
+fn escape_ts_str(s: &str) -> String {
+    let mut ret = String::with_capacity(s.len());
+    for c in s.chars() {
+        match c {
+            '\\' => ret.push_str("\\\\"),
+            '"' => ret.push_str("\\\""),
+            '\'' => ret.push_str("\\'"),
+            '\n' => ret.push_str("\\n"),
+            '\r' => ret.push_str("\\r"),
+            c => ret.push(c),
+        }
+    }
+    ret
+}
diff --git a/src/codegen/lex_gen.rs b/src/codegen/lex_gen.rs
index cdc14bd..7c9b782 100644
--- a/src/codegen/lex_gen.rs
+++ b/src/codegen/lex_gen.rs
@@ -27,10 +27,13 @@ fn nice_case(s: &str) -> String {
 mod ts {
     use std::collections::{BTreeMap, BTreeSet};
 
-    use crate::lex::{
-        dfa::DFA,
-        lex::Lex,
-        nfa::{Match, StateIdx},
+    use crate::{
+        codegen::escape_ts_str,
+        lex::{
+            dfa::DFA,
+            lex::Lex,
+            nfa::{Match, StateIdx},
+        },
     };
 
     #[derive(Clone, Debug)]
@@ -100,7 +103,7 @@ mod ts {
                 
                 "#,
                     i,
-                    kind,
+                    escape_ts_str(kind),
                     if *has_value { "true" } else { "false" }
                 ));
             }
diff --git a/src/codegen/parse_gen.rs b/src/codegen/parse_gen.rs
index 68f9970..e6f773e 100644
--- a/src/codegen/parse_gen.rs
+++ b/src/codegen/parse_gen.rs
@@ -8,6 +8,7 @@ mod ts {
     use bumpalo::Bump;
 
     use crate::{
+        codegen::escape_ts_str,
         lalr::{item::ProductionIdx, table, Lalr},
         parser::{
             ast::{self, Ident, InputSymbol, NamedSymbol},
@@ -203,7 +204,7 @@ export type Token =
                     w,
                     r#"
                 {}: {{ kind: "{}", value: "{}" }}"#,
-                    i, kind, value
+                    i, kind, escape_ts_str(value)
                 )?;
             }
 
@@ -289,7 +290,7 @@ export type Token =
                     Symbol::Epsilon => continue,
                     Symbol::Eof => "EOF",
                 };
-                writeln!(w, "'{}': {}", name, idx)?;
+                writeln!(w, "'{}': {}", escape_ts_str(name), idx)?;
             }
             w.write_str("\n}\n")?;
             Ok(())
@@ -497,7 +498,7 @@ export type Token =
                         ));
                         cond_stack.push(format!(
                             "__{}['token']['value'] extends infer {} extends '{}'",
-                            named_sym.name, named_sym.name, str_lit,
+                            named_sym.name, named_sym.name, escape_ts_str(str_lit),
                         ));
                         else_stack.push(format!(
                             r#"`error: not a token (pos \`{}\`, Action{})`"#,
-- 
2.43.0


From 345ce9c511f1ab985cbf836165e7f716aebbab48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:02 +0000
Subject: [PATCH 12/13] verification hooks: read access to the lexer tables
 under cfg(typelalr_verif)

---
 src/lib.rs | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 0d97f50..94c66fb 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -16,6 +16,29 @@ pub fn parse_grammar<'ast>(bump: &'ast Bump, grammar_str: &str) -> Vec<ast::Prod
     ast_productions
 }
 
+/// Read access to internal tables, for the verification harness only
+#[cfg(typelalr_verif)]
+pub mod verif_hooks {
+    use crate::lex::{
+        dfa::DFA,
+        lex::{Lex, TokenDef},
+        nfa::StateIdx,
+    };
+    use std::collections::{BTreeMap, BTreeSet};
+
+    pub fn dfa_to_nfa(dfa: &DFA) -> &BTreeMap<StateIdx, BTreeSet<StateIdx>> {
+        &dfa.dfa_to_nfa
+    }
+
+    pub fn lex_dfa(lex: &Lex) -> &DFA {
+        &lex.dfa
+    }
+
+    pub fn lex_tokens(lex: &Lex) -> &BTreeMap<StateIdx, TokenDef> {
+        &lex.tokens
+    }
+}
+
 #[cfg(test)]
 mod test {
     use bumpalo::Bump;
-- 
2.43.0


From b3c8e135d1d09b38974e8b024ff1277a9fe553e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:38 +0000
Subject: [PATCH 13/13] fix: reject a parse that only goes around in a circle
 of unit reductions

With a symbol that derives nothing after them, unit productions in a circle
(N: M, M: N) get no conflict, and the parser reduced by them forever.
---
 src/lalr.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/lalr.rs b/src/lalr.rs
index 420d83d..069bac7 100644
--- a/src/lalr.rs
+++ b/src/lalr.rs
@@ -86,6 +86,9 @@ impl<'ast> Lalr<'ast> {
         println!("ACTION: {:#?}", self.action);
         println!("GOTO: {:#?}", self.goto);
 
+        // Number of reductions in a row that leave the stack as high as it was
+        let mut unit_reductions = 0;
+
         let mut loop_count = 0;
         loop {
             loop_count += 1;
@@ -99,6 +102,7 @@ impl<'ast> Lalr<'ast> {
 
                     println!("  shifting {}", *new_state_idx);
 
+                    unit_reductions = 0;
                     token_stack.push(a);
                     next_token(&mut a, &mut a_idx, &mut i, tokens);
                 }
@@ -109,6 +113,16 @@ impl<'ast> Lalr<'ast> {
                         .expect("Production is undefined");
                     let new_len = stack.len() - production.input_tokens.len();
 
+                    if production.input_tokens.len() == 1 {
+                        // More of them than there are productions go around in a circle
+                        if unit_reductions == self.grammar.iter_productions().count() {
+                            panic!("Invalid token: {:?}", a);
+                        }
+                        unit_reductions += 1;
+                    } else {
+                        unit_reductions = 0;
+                    }
+
                     // println!(
                     //     "  STACK LEN {} PROD LEN {} NEW LEN {}",
                     //     stack.len(),
-- 
2.43.0

