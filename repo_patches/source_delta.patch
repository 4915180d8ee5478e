From 89fcc50d51329960084c911af65bc011173eb376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:36:20 +0000
Subject: [PATCH 01/17] fix: deliver the last complete token when the input
 ends mid-candidate

The lexer returned nothing at the end of the input unless the state machine
was accepting at that very moment. With tokens 'a' and 'abc' the input 'ab'
lost the token 'a'.
---
 pango-lexer/src/lexer/mod.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/pango-lexer/src/lexer/mod.rs b/pango-lexer/src/lexer/mod.rs
index 110072f..6643abd 100644
--- a/pango-lexer/src/lexer/mod.rs
+++ b/pango-lexer/src/lexer/mod.rs
@@ -110,13 +110,10 @@ where
             }
         }
 
-        if sim.is_accepting() {
-            token_kind.map(|token_kind| {
-                Token::from_input_iter_token(self.iter.consume_token(), token_kind)
-            })
-        } else {
-            None
-        }
+        // The input ended. The last accepted token is still a token, even if the input
+        // ended in the middle of a longer candidate.
+        token_kind
+            .map(|token_kind| Token::from_input_iter_token(self.iter.consume_token(), token_kind))
     }
 }
 
-- 
2.43.0


From 2441ca275fa82d9a3af3ef212cd9fc8a0cbb88e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:36:28 +0000
Subject: [PATCH 02/17] fix: keep characters given back earlier when giving
 back more

Consuming a token replaced the buffer of characters to be read again, dropping
those in it that had not been read yet. With tokens a, b, c, d, x and abcde the
input 'abcdx' lost characters.
---
 pango-lexer/src/lexer/input.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pango-lexer/src/lexer/input.rs b/pango-lexer/src/lexer/input.rs
index 668df14..9288182 100644
--- a/pango-lexer/src/lexer/input.rs
+++ b/pango-lexer/src/lexer/input.rs
@@ -74,7 +74,7 @@ impl<'a> InputIter<'a> {
     /// Takes the currently built/accepted token from the iterator and moves the
     /// not accepted part of the input so it is used for the next token.
     pub(super) fn consume_token(&mut self) -> InputIterToken {
-        self.prev_characters_iter = std::mem::take(&mut self.token_suffix).into_iter();
+        self.give_back_suffix();
         let new_token = InputIterToken {
             // OPTIMIZATION: Assume that the string length of the new token will at least be half
             // of the previous token.
@@ -86,6 +86,15 @@ impl<'a> InputIter<'a> {
         std::mem::replace(&mut self.current_token, new_token)
     }
 
+    /// Moves the not accepted part of the input back in front of the input that
+    /// is still to be read.
+    fn give_back_suffix(&mut self) {
+        let mut characters = std::mem::take(&mut self.token_suffix);
+        // characters given back earlier may not all have been read again
+        characters.extend(self.prev_characters_iter.by_ref());
+        self.prev_characters_iter = characters.into_iter();
+    }
+
     /// Returns a read-only reference to the [`InputIterToken`] being built.
     pub(super) fn get_token(&self) -> &InputIterToken {
         &self.current_token
-- 
2.43.0


From 0e015e334f2770c239ad4cfc0a37afc35377c7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:36:35 +0000
Subject: [PATCH 03/17] fix: do not turn refused characters into a token on a
 later call

After the lexer had stopped at a character that starts no token, the characters
it had read stayed behind and became part of the token of a later call: with a
single token 'a' the input '?a' gave None and then a token '?a'.
---
 pango-lexer/src/lexer/input.rs |  2 +-
 pango-lexer/src/lexer/mod.rs   | 22 ++++++++++++++--------
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/pango-lexer/src/lexer/input.rs b/pango-lexer/src/lexer/input.rs
index 9288182..281d577 100644
--- a/pango-lexer/src/lexer/input.rs
+++ b/pango-lexer/src/lexer/input.rs
@@ -88,7 +88,7 @@ impl<'a> InputIter<'a> {
 
     /// Moves the not accepted part of the input back in front of the input that
     /// is still to be read.
-    fn give_back_suffix(&mut self) {
+    pub(super) fn give_back_suffix(&mut self) {
         let mut characters = std::mem::take(&mut self.token_suffix);
         // characters given back earlier may not all have been read again
         characters.extend(self.prev_characters_iter.by_ref());
diff --git a/pango-lexer/src/lexer/mod.rs b/pango-lexer/src/lexer/mod.rs
index 6643abd..efafdee 100644
--- a/pango-lexer/src/lexer/mod.rs
+++ b/pango-lexer/src/lexer/mod.rs
@@ -72,10 +72,7 @@ where
         while let Some(ch) = self.iter.next() {
             if !sim.can_feed(ch) {
                 // the current token is the longest token we can 'munch'
-
-                return token_kind.map(|token_kind| {
-                    Token::from_input_iter_token(self.iter.consume_token(), token_kind)
-                });
+                break;
             }
 
             if sim.feed(ch) {
@@ -110,10 +107,19 @@ where
             }
         }
 
-        // The input ended. The last accepted token is still a token, even if the input
-        // ended in the middle of a longer candidate.
-        token_kind
-            .map(|token_kind| Token::from_input_iter_token(self.iter.consume_token(), token_kind))
+        // The last accepted token is still a token, even if the input ended in the
+        // middle of a longer candidate.
+        let Some(token_kind) = token_kind else {
+            // No token starts here. Give the characters back so they do not end up in a
+            // token of a later call.
+            self.iter.give_back_suffix();
+            return None;
+        };
+
+        Some(Token::from_input_iter_token(
+            self.iter.consume_token(),
+            token_kind,
+        ))
     }
 }
 
-- 
2.43.0


From 556cded8577c1b3c3b641e831df2359cb060e8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:37:00 +0000
Subject: [PATCH 04/17] fix: run a token's constructor once, when the token is
 delivered

The constructor ran for every accepting prefix of a token (also for definitions
that lost to a longer match), and a panic in it left a half-built token behind
whose text was merged into the next one.
---
 pango-lexer/src/lexer/input.rs |  5 ----
 pango-lexer/src/lexer/mod.rs   | 45 +++++++++++++++-------------------
 2 files changed, 20 insertions(+), 30 deletions(-)

diff --git a/pango-lexer/src/lexer/input.rs b/pango-lexer/src/lexer/input.rs
index 281d577..2b71ab4 100644
--- a/pango-lexer/src/lexer/input.rs
+++ b/pango-lexer/src/lexer/input.rs
@@ -95,11 +95,6 @@ impl<'a> InputIter<'a> {
         self.prev_characters_iter = characters.into_iter();
     }
 
-    /// Returns a read-only reference to the [`InputIterToken`] being built.
-    pub(super) fn get_token(&self) -> &InputIterToken {
-        &self.current_token
-    }
-
     /// Accpepts the currently unaccepted part of the token into the token and
     /// updates the text positions of the token.
     pub(super) fn accept_suffix(&mut self) {
diff --git a/pango-lexer/src/lexer/mod.rs b/pango-lexer/src/lexer/mod.rs
index efafdee..dbc8698 100644
--- a/pango-lexer/src/lexer/mod.rs
+++ b/pango-lexer/src/lexer/mod.rs
@@ -67,7 +67,7 @@ where
 
     fn next(&mut self) -> Option<Self::Item> {
         let mut sim = self.fsm.to_simulator();
-        let mut token_kind = None;
+        let mut final_state = None;
 
         while let Some(ch) = self.iter.next() {
             if !sim.can_feed(ch) {
@@ -77,7 +77,7 @@ where
 
             if sim.feed(ch) {
                 // The finite-state machine currently accepts. Append the last unaccepted
-                // characters to the token and store the token kind.
+                // characters to the token and store which token it is.
                 self.iter.accept_suffix();
 
                 // Get the first final state the Simulator is in.
@@ -85,41 +85,36 @@ where
                 // Note: this assumes that the lower final state ids, have the highest
                 // precedence. This is enforced by the order of expression
                 // compilation.
-                let final_state = sim
-                    .get_current_final_states()
-                    .into_iter()
-                    .next()
-                    .expect("expected a single final state");
-
-                token_kind = Some(
-                    match self
-                        .tokens
-                        .get_mut(&final_state)
-                        .expect("final state should match a single token")
-                    {
-                        TokenKindGenerator::Map(token_kind_gen) => {
-                            token_kind_gen(&self.iter.get_token().source)
-                        }
-
-                        TokenKindGenerator::Unit(token_kind_gen) => token_kind_gen(),
-                    },
+                final_state = Some(
+                    sim.get_current_final_states()
+                        .into_iter()
+                        .next()
+                        .expect("expected a single final state"),
                 );
             }
         }
 
         // The last accepted token is still a token, even if the input ended in the
         // middle of a longer candidate.
-        let Some(token_kind) = token_kind else {
+        let Some(final_state) = final_state else {
             // No token starts here. Give the characters back so they do not end up in a
             // token of a later call.
             self.iter.give_back_suffix();
             return None;
         };
 
-        Some(Token::from_input_iter_token(
-            self.iter.consume_token(),
-            token_kind,
-        ))
+        let token = self.iter.consume_token();
+
+        let token_kind = match self
+            .tokens
+            .get_mut(&final_state)
+            .expect("final state should match a single token")
+        {
+            TokenKindGenerator::Map(token_kind_gen) => token_kind_gen(&token.source),
+            TokenKindGenerator::Unit(token_kind_gen) => token_kind_gen(),
+        };
+
+        Some(Token::from_input_iter_token(token, token_kind))
     }
 }
 
-- 
2.43.0


From 6cec524e137f1f80a4a11b06666e6b13ffb17898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:37:08 +0000
Subject: [PATCH 05/17] fix: stop reading a character escape after its last
 digit

Hexadecimal digits that follow an escape belong to the next token. '\x41b' was
refused and '\u0041b' stood for the single character U+0041B.
---
 pango-lexer/src/regex/tokenizer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pango-lexer/src/regex/tokenizer.rs b/pango-lexer/src/regex/tokenizer.rs
index aab53fd..5d395dd 100644
--- a/pango-lexer/src/regex/tokenizer.rs
+++ b/pango-lexer/src/regex/tokenizer.rs
@@ -351,7 +351,7 @@ impl<'a> Tokenizer<'a> {
     }
 
     /// Returns the count of digits and converts them to [`u32`] including the
-    /// starting digit if present. Takes all hexadecimals it can take.
+    /// starting digit if present. Takes at most `max_digits` hexadecimals.
     /// It only returns `Some` when the amount was the expected amount.
     fn take_next_hexadecimals_and_convert_to_u32(
         &mut self,
@@ -374,6 +374,7 @@ impl<'a> Tokenizer<'a> {
         self.iter
             .by_ref()
             .cautious_map_while(|(_, ch)| ch.to_digit(16))
+            .take(max_digits - digit_count as usize)
             .fold(Some((digit_count, start)), |acc, d| {
                 acc.map(|(digit_count, n)| (digit_count + 1, (n << 4) + d))
             })
-- 
2.43.0


From b82dda66de84ac940d3e8cf672a88e81b589b242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:38:06 +0000
Subject: [PATCH 06/17] fix: bound the runs of the NFA simulator

Counters of repeated empty iterations grew without end, so a pattern such as
'(a?){2}' or '(a*)*' never finished, and identical runs were never merged, so
'(a+)+b' took exponential time. Count only at quantified states, only as far as
the quantifier can tell counts apart, and keep every run once.
---
 pango-lexer/src/fsm/nfa/model.rs   |  8 +++++
 pango-lexer/src/fsm/nfa/sim.rs     | 56 ++++++++++++++++++++----------
 pango-lexer/src/regex/tokenizer.rs | 13 +++++++
 3 files changed, 58 insertions(+), 19 deletions(-)

diff --git a/pango-lexer/src/fsm/nfa/model.rs b/pango-lexer/src/fsm/nfa/model.rs
index f0bf32b..af54c44 100644
--- a/pango-lexer/src/fsm/nfa/model.rs
+++ b/pango-lexer/src/fsm/nfa/model.rs
@@ -144,6 +144,14 @@ impl State {
         }
     }
 
+    /// Returns the quantifier of the state, if it is a quantified state.
+    pub(super) fn get_quantifier(&self) -> Option<QuantifierKind> {
+        self.transitions.keys().find_map(|input| match input {
+            Input::Quantified(quantifier) => Some(*quantifier),
+            _ => None,
+        })
+    }
+
     /// Creates a new [`State`] with the given id and whether it is final. No
     /// transitions are created.
     fn with_id(id: StateId, fin: bool) -> Self {
diff --git a/pango-lexer/src/fsm/nfa/sim.rs b/pango-lexer/src/fsm/nfa/sim.rs
index dd08984..6b5b4a7 100644
--- a/pango-lexer/src/fsm/nfa/sim.rs
+++ b/pango-lexer/src/fsm/nfa/sim.rs
@@ -5,6 +5,7 @@ use super::{
     },
     model::{Input, Nfa, State, StateCounters},
 };
+use crate::regex::tokenizer::QuantifierKind;
 
 use std::{
     borrow::Cow,
@@ -40,14 +41,23 @@ impl Run {
     }
 
     /// Updates the [`Run`] to the new state and updates the needed state
-    /// counters.
-    fn take_transition(mut self, new_state_id: StateId, quantified: bool) -> Self {
-        let count = self.state_counters.entry(self.state_id).or_insert(0);
-        if quantified {
-            // Reset the state count if quantified transition is used
-            *count = 0;
-        } else {
-            *count += 1;
+    /// counters. Only states with a quantifier need a counter, and only up to
+    /// the count that decides whether the quantifier is satisfied.
+    fn take_transition(
+        mut self,
+        new_state_id: StateId,
+        quantifier: Option<QuantifierKind>,
+        quantified: bool,
+    ) -> Self {
+        match quantifier {
+            Some(quantifier) if !quantified => {
+                let count = self.state_counters.entry(self.state_id).or_insert(0);
+                *count = (*count + 1).min(quantifier.max_count());
+            }
+            _ => {
+                // Reset the state count if quantified transition is used
+                self.state_counters.remove(&self.state_id);
+            }
         }
         self.state_id = new_state_id;
 
@@ -68,10 +78,11 @@ impl<'a> NfaSimulator<'a> {
 
     /// Returns an iterator over the runtime epsilon closure. This is an epsilon
     /// closure of [`Run`]s, NOT of [`State`]s. Because runs contain state
-    /// counters, this will also take quantified transitions.
-    fn eps_closure(&self, run: Run) -> impl Iterator<Item = Run> {
-        let mut not_visited = VecDeque::from([run.clone()]);
-        let mut result = HashSet::from([run]);
+    /// counters, this will also take quantified transitions. Every run in the
+    /// closure is unique.
+    fn eps_closure(&self, runs: impl IntoIterator<Item = Run>) -> impl Iterator<Item = Run> {
+        let mut result = HashSet::<Run>::from_iter(runs);
+        let mut not_visited = result.iter().cloned().collect::<VecDeque<_>>();
 
         while let Some(run) = not_visited.pop_front() {
             let Run {
@@ -79,7 +90,8 @@ impl<'a> NfaSimulator<'a> {
                 state_counters,
             } = &run;
 
-            let State { transitions, .. } = self.nfa.get_state(*state_id);
+            let state @ State { transitions, .. } = self.nfa.get_state(*state_id);
+            let quantifier = state.get_quantifier();
 
             let transitions_taken = transitions
                 .iter()
@@ -101,7 +113,10 @@ impl<'a> NfaSimulator<'a> {
 
             let new_runs = transitions_taken
                 .into_iter()
-                .map(|(new_state, quantified)| run.clone().take_transition(*new_state, quantified));
+                .map(|(new_state, quantified)| {
+                    run.clone()
+                        .take_transition(*new_state, quantifier, quantified)
+                });
 
             for new_run in new_runs {
                 if result.insert(new_run.clone()) {
@@ -137,7 +152,8 @@ impl Simulate for NfaSimulator<'_> {
         let mut updated_runs = Vec::new();
 
         for run @ Run { state_id, .. } in self.runs.iter() {
-            let State { transitions, .. } = self.nfa.get_state(*state_id);
+            let state @ State { transitions, .. } = self.nfa.get_state(*state_id);
+            let quantifier = state.get_quantifier();
 
             // Check for every transition if the input can make that transition.
 
@@ -152,7 +168,7 @@ impl Simulate for NfaSimulator<'_> {
                 })
                 .flatten();
 
-            // First, update the run with the new information, then calculate the epsilon
+            // First, update the runs with the new information, then calculate the epsilon
             // closure with the updated state counters.
             //
             // Note: For every run, this clones one time too many. This is not a problem as
@@ -161,13 +177,15 @@ impl Simulate for NfaSimulator<'_> {
 
             let new_runs = new_state_ids
                 .into_iter()
-                .map(|new_state_id| run.clone().take_transition(*new_state_id, false))
-                .flat_map(|new_run| self.eps_closure(new_run));
+                .map(|new_state_id| {
+                    run.clone()
+                        .take_transition(*new_state_id, quantifier, false)
+                });
 
             updated_runs.extend(new_runs);
         }
 
-        self.runs = updated_runs;
+        self.runs = self.eps_closure(updated_runs).collect();
 
         #[cfg(debug_assertions)]
         {
diff --git a/pango-lexer/src/regex/tokenizer.rs b/pango-lexer/src/regex/tokenizer.rs
index 5d395dd..bf02df2 100644
--- a/pango-lexer/src/regex/tokenizer.rs
+++ b/pango-lexer/src/regex/tokenizer.rs
@@ -414,6 +414,19 @@ impl QuantifierKind {
             }
         }
     }
+
+    /// Returns the lowest count from which on the quantifier does not
+    /// distinguish between counts.
+    pub(crate) fn max_count(&self) -> usize {
+        match self {
+            QuantifierKind::Asterisk => 0,
+            QuantifierKind::Plus => 1,
+            QuantifierKind::QuestionMark => 2,
+            QuantifierKind::Range(QuantifierRangeKind::Max(max)) => *max as usize + 1,
+            QuantifierKind::Range(QuantifierRangeKind::Min(min)) => *min as usize,
+            QuantifierKind::Range(QuantifierRangeKind::Range(_, max)) => *max as usize + 1,
+        }
+    }
 }
 
 impl ClassKind {
-- 
2.43.0


From 14af9f3e711265e2041394cc14e071e3f8f19299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:38:16 +0000
Subject: [PATCH 07/17] fix: count iterations of a quantified group at the
 start of a pattern

The runs the simulator started with had no counters, so an iteration entered
before the first character was not counted: '(a+b){2}' needed three
repetitions.
---
 pango-lexer/src/fsm/nfa/model.rs | 46 +-------------------------------
 pango-lexer/src/fsm/nfa/sim.rs   | 14 +++++-----
 2 files changed, 9 insertions(+), 51 deletions(-)

diff --git a/pango-lexer/src/fsm/nfa/model.rs b/pango-lexer/src/fsm/nfa/model.rs
index af54c44..7f9ddbd 100644
--- a/pango-lexer/src/fsm/nfa/model.rs
+++ b/pango-lexer/src/fsm/nfa/model.rs
@@ -1,6 +1,6 @@
 use super::StateId;
 use crate::regex::{ast, tokenizer::QuantifierKind};
-use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque};
+use std::collections::{BTreeMap, HashMap, HashSet};
 
 // TODO: Clean up expects and panics to be `Option` and `Result` types.
 
@@ -76,50 +76,6 @@ impl Nfa {
     pub(super) fn get_final_states(&self) -> impl Iterator<Item = &State> + '_ {
         self.states.iter().filter(|s| s.fin)
     }
-
-    /// Returns an iterator over references to all states in the static epsilon
-    /// closure of the given state.
-    ///
-    /// This implementation of the NFA uses quantified transitions which can
-    /// only be taken when the state has been visited 'x' amount of times.
-    /// This is useful to prevent the exponential growth of the NFA when
-    /// compiling complex regex quantifiers. However, this means that state
-    /// counting has to be done at 'run-time' of the NFA. Information which is
-    /// not known to the [`NfaModel`](self::Nfa). Instaid a state is always
-    /// assumed to be visited 0 times, when trying quantified transitions.
-    pub(super) fn eps_closure(&self, state_id: StateId) -> impl Iterator<Item = StateId> {
-        let mut not_visited = VecDeque::from([state_id]);
-        let mut result = BTreeSet::from([state_id]);
-
-        while let Some(state_id) = not_visited.pop_front() {
-            let State { transitions, .. } = self.get_state(state_id);
-
-            let new_state_ids = transitions
-                .iter()
-                .filter_map(|(input, states)| -> Option<Box<dyn Iterator<Item = _>>> {
-                    match input {
-                        Input::Literal(_) => None,
-                        Input::Eps => Some(Box::new(states.iter())),
-                        Input::Quantified(quantifier) => {
-                            if quantifier.is_satisfied(0) {
-                                Some(Box::new(states.iter()))
-                            } else {
-                                None
-                            }
-                        }
-                    }
-                })
-                .flatten();
-
-            for state_id in new_state_ids {
-                if result.insert(*state_id) {
-                    not_visited.push_back(*state_id)
-                }
-            }
-        }
-
-        result.into_iter()
-    }
 }
 
 impl Input {
diff --git a/pango-lexer/src/fsm/nfa/sim.rs b/pango-lexer/src/fsm/nfa/sim.rs
index 6b5b4a7..a9b0d51 100644
--- a/pango-lexer/src/fsm/nfa/sim.rs
+++ b/pango-lexer/src/fsm/nfa/sim.rs
@@ -68,12 +68,14 @@ impl Run {
 impl<'a> NfaSimulator<'a> {
     /// Creates a new [`NfaSimulator`].
     fn new(nfa: Cow<'a, Nfa>) -> Self {
-        let runs = nfa
-            .eps_closure(nfa.start_state)
-            .map(Run::new)
-            .collect::<Vec<_>>();
-
-        Self { nfa, runs }
+        let start_run = Run::new(nfa.start_state);
+        let mut sim = Self {
+            nfa,
+            runs: Vec::new(),
+        };
+        sim.runs = sim.eps_closure([start_run]).collect();
+
+        sim
     }
 
     /// Returns an iterator over the runtime epsilon closure. This is an epsilon
-- 
2.43.0


From aee56618cf796e9a0717869c8cae26dc8fbb41bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:38:50 +0000
Subject: [PATCH 08/17] fix: accept grammars in which several rules shift the
 same terminal

Entering the same action for a state and terminal twice was treated as a
conflict, so a grammar with the rules 'S -> a b' and 'S -> a c' was refused.
---
 pango-parser/src/parser/table.rs | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/pango-parser/src/parser/table.rs b/pango-parser/src/parser/table.rs
index 0b14ae4..8467eb4 100644
--- a/pango-parser/src/parser/table.rs
+++ b/pango-parser/src/parser/table.rs
@@ -1,4 +1,10 @@
-use std::{collections::HashMap, fmt::Debug, hash::Hash, pin::Pin, ptr::NonNull};
+use std::{
+    collections::{hash_map::Entry, HashMap},
+    fmt::Debug,
+    hash::Hash,
+    pin::Pin,
+    ptr::NonNull,
+};
 
 use super::traits::{TerminalEq, TerminalHash};
 use crate::{
@@ -135,6 +141,7 @@ where
 
 impl<V, T> ParseTable<V, T>
 where
+    V: Eq,
     T: TerminalEq + TerminalHash,
 {
     fn insert_action(
@@ -150,16 +157,16 @@ where
         let state = table
             .get_mut(state)
             .expect("state should exist as the table has just been resized");
-        let mut occupied = true;
-        let _entry = state.entry(terminal).or_insert_with(|| {
-            occupied = false;
-            action
-        });
 
         // TODO: Return type of conflict
-        match occupied {
-            true => Err(()),
-            false => Ok(()),
+        match state.entry(terminal) {
+            Entry::Occupied(entry) if *entry.get() != action => Err(()),
+            // several items of a state can ask for the same action
+            Entry::Occupied(_) => Ok(()),
+            Entry::Vacant(entry) => {
+                entry.insert(action);
+                Ok(())
+            }
         }
     }
 }
-- 
2.43.0


From d6d691974b79c3ada5b3eaa4f6f944d0f8242951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:39:00 +0000
Subject: [PATCH 09/17] fix: do not count empty symbols when reducing

Reducing by a rule with an explicit or implied empty symbol took one symbol too
many from the parse stack, because nothing was ever pushed for it.
---
 pango-parser/src/cfsm/item.rs    | 9 +++++++++
 pango-parser/src/parser/table.rs | 4 ++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/pango-parser/src/cfsm/item.rs b/pango-parser/src/cfsm/item.rs
index 1e0d57b..5f4f717 100644
--- a/pango-parser/src/cfsm/item.rs
+++ b/pango-parser/src/cfsm/item.rs
@@ -33,6 +33,15 @@ impl<V, T> ItemBody<V, T> {
         unsafe { self.body.as_ref() }
     }
 
+    /// Returns the amount of symbols in the [`Body`] that end up on the stack of
+    /// a parser, thus without counting [`Epsilon`](Symbol::Epsilon)s.
+    pub(crate) fn symbol_count(&self) -> usize {
+        self.get_body()
+            .iter()
+            .filter(|s| !matches!(s, Symbol::Epsilon))
+            .count()
+    }
+
     /// Returns the [`Symbol`] the bullet/cursor is currently reading.
     pub(crate) fn get_cursor_symbol(&self) -> Option<&Symbol<V, T>> {
         self.get_body().get(self.cursor)
diff --git a/pango-parser/src/parser/table.rs b/pango-parser/src/parser/table.rs
index 8467eb4..135cb09 100644
--- a/pango-parser/src/parser/table.rs
+++ b/pango-parser/src/parser/table.rs
@@ -105,7 +105,7 @@ where
                                 t,
                                 ActionKind::Reduce {
                                     variable: head,
-                                    amount: body.get_body().len(),
+                                    amount: body.symbol_count(),
                                 },
                             )?;
                         }
@@ -119,7 +119,7 @@ where
                                 Terminal::Eof,
                                 ActionKind::Accept {
                                     variable: head,
-                                    amount: body.get_body().len(),
+                                    amount: body.symbol_count(),
                                 },
                             )?;
                         }
-- 
2.43.0


From aea4bd7af48fd61c7effc9f84e4268f9168d2053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:41:16 +0000
Subject: [PATCH 10/17] fix: reduce every rule that can end the input on a
 lookahead of eof

Only the rules of the start variable had an action for the end of the
input, and that action accepted at once. Sentences ending in any other
variable were rejected, and a nested start variable was accepted while
earlier symbols were still unreduced.

Reduce on eof for every variable that can end a sentence and accept in
the state reached over the start variable. States without any action
now have a row in the table, so looking one up no longer panics.
---
 pango-parser/src/grammar.rs      | 29 ++++++++++++++++++++++++
 pango-parser/src/parser/slr.rs   | 20 +++++-----------
 pango-parser/src/parser/table.rs | 39 ++++++++++++++++++++++++--------
 3 files changed, 64 insertions(+), 24 deletions(-)

diff --git a/pango-parser/src/grammar.rs b/pango-parser/src/grammar.rs
index 5f877a2..b178af5 100644
--- a/pango-parser/src/grammar.rs
+++ b/pango-parser/src/grammar.rs
@@ -373,6 +373,35 @@ where
 
         result
     }
+
+    /// Returns the set of `Variables` that can be followed by the end of the
+    /// input.
+    pub(super) fn end_variables(&self) -> HashSet<V> {
+        let mut result = HashSet::from([self.start_variable]);
+        let mut pending = VecDeque::from([self.start_variable]);
+
+        while let Some(head) = pending.pop_front() {
+            for body in self.get_rule_bodies(head).into_iter().flatten() {
+                for symbol in body.iter().rev() {
+                    match symbol {
+                        Symbol::Terminal(_) => break,
+                        Symbol::Variable(v) => {
+                            if result.insert(*v) {
+                                pending.push_back(*v);
+                            }
+
+                            if !self.first(*v).contains(&Symbol::Epsilon) {
+                                break;
+                            }
+                        }
+                        Symbol::Epsilon => (),
+                    }
+                }
+            }
+        }
+
+        result
+    }
 }
 
 impl<V, T> Grammar<V, T>
diff --git a/pango-parser/src/parser/slr.rs b/pango-parser/src/parser/slr.rs
index c828220..83a394a 100644
--- a/pango-parser/src/parser/slr.rs
+++ b/pango-parser/src/parser/slr.rs
@@ -148,22 +148,14 @@ where
                     state: *new_state,
                 }
             }
-            ActionKind::Accept { variable, amount } => {
-                let children = stack
-                    .drain((stack.len() - amount)..)
-                    .map(|parse_node| parse_node.node)
-                    .rev()
-                    .collect();
+            ActionKind::Accept => {
+                // the start variable has to be all there is on top of the initial element
+                if stack.len() != 2 {
+                    return Err(());
+                }
 
                 accept = true;
-                ParseNode {
-                    node: Node {
-                        symbol: Symbol::Variable(*variable),
-                        children,
-                    },
-                    // State does not matter here as the action is to accept
-                    state: StateId::default(),
-                }
+                stack.pop().expect("expected the start variable")
             }
         };
 
diff --git a/pango-parser/src/parser/table.rs b/pango-parser/src/parser/table.rs
index 135cb09..f532db2 100644
--- a/pango-parser/src/parser/table.rs
+++ b/pango-parser/src/parser/table.rs
@@ -26,7 +26,7 @@ type GotoTable<V> = Vec<HashMap<V, StateId>>;
 pub enum ActionKind<V> {
     Shift { dest_state: StateId },
     Reduce { variable: V, amount: usize },
-    Accept { variable: V, amount: usize },
+    Accept,
 }
 
 pub(super) enum Terminal<T> {
@@ -55,8 +55,15 @@ where
 
         let follow_set = grammar.follow_set();
 
+        let end_variables = grammar.end_variables();
+
         let (mut action, mut goto) = (ActionTable::new(), GotoTable::new());
 
+        // every state has a (possibly empty) row in both tables
+        let state_count = cfsm.iter().count();
+        action.resize_with(state_count, Default::default);
+        goto.resize_with(state_count, Default::default);
+
         for cfsm::State {
             id: state_id,
             item_set,
@@ -86,11 +93,7 @@ where
                     }
                     None => {
                         // body of the form `S -> w •`
-                        let Some(follow) = follow_set.get(&head) else {
-                            continue;
-                        };
-
-                        for s in follow.iter() {
+                        for s in follow_set.get(&head).into_iter().flatten() {
                             let t = match s {
                                 Symbol::Terminal(t) => Terminal::T(t.into()),
                                 Symbol::Variable(_) => {
@@ -110,14 +113,12 @@ where
                             )?;
                         }
 
-                        if head == grammar.get_start_variable() {
-                            // reduce once to the start variable on a lookahead of eof, then
-                            // accept
+                        if end_variables.contains(&head) {
                             Self::insert_action(
                                 &mut action,
                                 *state_id,
                                 Terminal::Eof,
-                                ActionKind::Accept {
+                                ActionKind::Reduce {
                                     variable: head,
                                     amount: body.symbol_count(),
                                 },
@@ -131,6 +132,24 @@ where
             }
         }
 
+        // accept on a lookahead of eof, once everything is reduced to the start variable
+        let start_variable = grammar.get_start_variable();
+        let start_state = StateId::default();
+        let accept_state = match goto.get(start_state).and_then(|g| g.get(&start_variable)) {
+            Some(accept_state) => *accept_state,
+            None => {
+                let accept_state = state_count;
+                Self::insert_goto(&mut goto, start_state, start_variable, accept_state);
+                accept_state
+            }
+        };
+        Self::insert_action(
+            &mut action,
+            accept_state,
+            Terminal::Eof,
+            ActionKind::Accept,
+        )?;
+
         Ok(Self {
             action,
             goto,
-- 
2.43.0


From fc3770f5b5dfbe97e9e85f88c20486db82c373fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:41:47 +0000
Subject: [PATCH 11/17] fix: reuse automaton states that are not finished yet

Only finished states were searched for an equal item set, so a state that
was still pending, or the current state itself, was added again. Chains
of rules made the number of states grow exponentially.
---
 pango-parser/src/cfsm/mod.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/pango-parser/src/cfsm/mod.rs b/pango-parser/src/cfsm/mod.rs
index 66bd8da..e8be1f3 100644
--- a/pango-parser/src/cfsm/mod.rs
+++ b/pango-parser/src/cfsm/mod.rs
@@ -76,12 +76,13 @@ where
             // try all symbols with a bullet reading them
 
             let State {
-                ref item_set,
+                id: current_state_id,
+                item_set: ref current_item_set,
                 ref mut transitions,
                 ..
             } = state;
 
-            for (symbol, item_set) in item_set.iter_by_cursor_symbol() {
+            for (symbol, item_set) in current_item_set.iter_by_cursor_symbol() {
                 // advance the items which read the same symbol
 
                 let new_item_set = item_set
@@ -99,12 +100,17 @@ where
                 let item_set = ItemSet::from((new_item_set, builder.get_grammar()));
 
                 let new_state_id = {
-                    match builder
+                    // the state might be finished, waiting to be handled, or the current one
+                    let existing_state_id = builder
                         .get_states_mut()
                         .iter()
+                        .chain(pending_states.iter())
                         .find(|s| s.has_item_set(&item_set))
-                    {
-                        Some(State { id, .. }) => *id,
+                        .map(|s| s.id)
+                        .or_else(|| (*current_item_set == item_set).then_some(current_state_id));
+
+                    match existing_state_id {
+                        Some(id) => id,
                         None => {
                             let state = State::new(state_id_generator.next(), item_set);
                             let state_id = state.id;
-- 
2.43.0


From f6a640be5757dcca9e06a145e5f449ec264216de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:42:09 +0000
Subject: [PATCH 12/17] fix: reject input the lexer cannot turn into tokens

The parser took the point at which no token could be read for the end of
the input, so a sentence followed by arbitrary text was accepted.
---
 pango-lexer/src/lexer/input.rs |  8 ++++++++
 pango-lexer/src/lexer/mod.rs   | 10 ++++++++++
 pango-parser/src/parser/slr.rs |  5 +++++
 3 files changed, 23 insertions(+)

diff --git a/pango-lexer/src/lexer/input.rs b/pango-lexer/src/lexer/input.rs
index 2b71ab4..ff068c7 100644
--- a/pango-lexer/src/lexer/input.rs
+++ b/pango-lexer/src/lexer/input.rs
@@ -95,6 +95,14 @@ impl<'a> InputIter<'a> {
         self.prev_characters_iter = characters.into_iter();
     }
 
+    /// Checks whether there are no characters left that are not part of a token
+    /// yet.
+    pub(super) fn is_exhausted(&self) -> bool {
+        self.token_suffix.is_empty()
+            && self.prev_characters_iter.as_slice().is_empty()
+            && self.iter.clone().next().is_none()
+    }
+
     /// Accpepts the currently unaccepted part of the token into the token and
     /// updates the text positions of the token.
     pub(super) fn accept_suffix(&mut self) {
diff --git a/pango-lexer/src/lexer/mod.rs b/pango-lexer/src/lexer/mod.rs
index dbc8698..f8a3a7a 100644
--- a/pango-lexer/src/lexer/mod.rs
+++ b/pango-lexer/src/lexer/mod.rs
@@ -125,6 +125,16 @@ impl<TokenKind> Lexer<'_, TokenKind, Nfa> {
     }
 }
 
+impl<TokenKind, Fsm: Simulatable> Lexer<'_, TokenKind, Fsm> {
+    /// Checks whether all of the input has been turned into tokens.
+    ///
+    /// When the [`Lexer`] returns no more tokens, this makes the difference
+    /// between the end of the input and input that does not start with a token.
+    pub fn is_exhausted(&self) -> bool {
+        self.iter.is_exhausted()
+    }
+}
+
 /// Builder struct for the [`Lexer`].
 pub struct LexerGenerator<TokenKind> {
     fsm_compiler: NfaCompiler,
diff --git a/pango-parser/src/parser/slr.rs b/pango-parser/src/parser/slr.rs
index 83a394a..9603488 100644
--- a/pango-parser/src/parser/slr.rs
+++ b/pango-parser/src/parser/slr.rs
@@ -70,6 +70,11 @@ where
             stack.push(parse_node);
         }
 
+        // the remaining input is not a token
+        if !input.is_exhausted() {
+            return Err(());
+        }
+
         // eof
         next_token = None;
         while let Ok((parse_node, accept)) =
-- 
2.43.0


From ce15f311eac30102af5facea259ac9d571707cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:00:04 +0000
Subject: [PATCH 13/17] fix: keep every dependent body part once when computing
 first sets

A body part was registered again on every visit, so the work lists grew
exponentially for bodies with many nullable variables.
---
 pango-parser/src/grammar.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/pango-parser/src/grammar.rs b/pango-parser/src/grammar.rs
index b178af5..09f308d 100644
--- a/pango-parser/src/grammar.rs
+++ b/pango-parser/src/grammar.rs
@@ -127,8 +127,12 @@ where
         use body_iter::BodyIter;
 
         type PendingQueue<'a, V, T> = VecDeque<(Option<V>, Vec<Box<dyn BodyIter<'a, V, T>>>)>;
-        type DependencyMap<'a, V, T> =
-            HashMap<V, HashMap<Option<V>, Vec<Box<dyn BodyIter<'a, V, T>>>>>;
+        // NOTE: The dependent part of a body is identified by its first symbol, so it is
+        // kept only once, however often it is visited.
+        type DependencyMap<'a, V, T> = HashMap<
+            V,
+            HashMap<Option<V>, HashMap<*const Symbol<V, T>, Box<dyn BodyIter<'a, V, T>>>>,
+        >;
 
         let mut result = HashSet::new();
         let mut first = HashMap::new();
@@ -174,7 +178,11 @@ where
 
             if changed {
                 if let Some(dependencies) = variable.and_then(|v| dependencies.remove(&v)) {
-                    pending_queue.extend(dependencies);
+                    pending_queue.extend(
+                        dependencies
+                            .into_iter()
+                            .map(|(v, bodies)| (v, bodies.into_values().collect())),
+                    );
                 }
             }
         }
@@ -209,8 +217,8 @@ where
                                 .entry(*v)
                                 .or_insert_with(HashMap::new)
                                 .entry(variable)
-                                .or_insert_with(Vec::new)
-                                .push(last_body.clone());
+                                .or_insert_with(HashMap::new)
+                                .insert(symbol as *const _, last_body.clone());
 
                             if !visited_variables.contains(v) {
                                 // make the bodies of the variable pending
-- 
2.43.0


From ca503d2d8c66d39d916ffb5a5252d26cfbf99805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:02:55 +0000
Subject: [PATCH 14/17] fix: do not count a variable as defined when none of
 its rules was recorded

---
 pango-parser/src/grammar.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pango-parser/src/grammar.rs b/pango-parser/src/grammar.rs
index 09f308d..7133c9d 100644
--- a/pango-parser/src/grammar.rs
+++ b/pango-parser/src/grammar.rs
@@ -524,7 +524,10 @@ where
         let mut heads = HashSet::new();
 
         for (head, bodies) in self.rules.iter() {
-            heads.insert(head);
+            // a rule whose declaration was cut short leaves no body behind
+            if !bodies.is_empty() {
+                heads.insert(head);
+            }
 
             variables.extend(
                 bodies
-- 
2.43.0


From 5631e325a24baf39baa72c091ad9c202081c7b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:51:08 +0000
Subject: [PATCH 15/17] fix: drop trees without recursion

A tree is as deep as the text is long for recursive rules. Dropping the
tree of a list with some 100000 elements overflowed the stack.
---
 pango-parser/src/cst.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pango-parser/src/cst.rs b/pango-parser/src/cst.rs
index 4c7b295..e239cad 100644
--- a/pango-parser/src/cst.rs
+++ b/pango-parser/src/cst.rs
@@ -21,3 +21,15 @@ impl<V, T> Node<V, T> {
         }
     }
 }
+
+impl<V, T> Drop for Node<V, T> {
+    fn drop(&mut self) {
+        // A tree can be as deep as the text is long. Take it apart level by level instead
+        // of dropping the children recursively.
+        let mut pending = std::mem::take(&mut self.children);
+
+        while let Some(mut node) = pending.pop() {
+            pending.append(&mut node.children);
+        }
+    }
+}
-- 
2.43.0


From fe5545b175bc5123da6674e84fc03af716f01c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:15:54 +0000
Subject: [PATCH 16/17] fix: escape labels in the state machine diagram

A symbol whose printed text contains a quote or a backslash ended the
label early or was read as an escape sequence, which made the diagram
invalid or showed another text.
---
 pango-parser/src/cfsm/dot.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pango-parser/src/cfsm/dot.rs b/pango-parser/src/cfsm/dot.rs
index daaf3f6..deb4b70 100644
--- a/pango-parser/src/cfsm/dot.rs
+++ b/pango-parser/src/cfsm/dot.rs
@@ -34,7 +34,7 @@ where
         self.states.iter().map(|State { id, item_set, .. }| {
             let label = item_set
                 .iter()
-                .map(|(head, item_body)| format!("{:?} ➞ {}", head, item_body))
+                .map(|(head, item_body)| escape(&format!("{:?} ➞ {}", head, item_body)))
                 .collect::<Vec<_>>()
                 .join(r"\n");
 
@@ -54,11 +54,11 @@ where
                         "{} -> {} [label = \"{}\"]",
                         *id,
                         state,
-                        match symbol {
+                        escape(&match symbol {
                             Symbol::Terminal(t) => format!("{:?}", t),
                             Symbol::Variable(v) => format!("{:?}", v),
                             eps @ Symbol::Epsilon => format!("{:?}", eps),
-                        }
+                        })
                     )
                 })
             },
@@ -66,6 +66,11 @@ where
     }
 }
 
+/// Escapes the characters that have a meaning in a quoted dot label.
+fn escape(label: &str) -> String {
+    label.replace('\\', r"\\").replace('"', "\\\"")
+}
+
 impl<V, T> Display for ItemBody<V, T>
 where
     V: Debug,
-- 
2.43.0


From 237918d829998c803839548780a2d4faef03cfcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:28:19 +0000
Subject: [PATCH 17/17] fix: refuse quantifier counts that do not fit in 32
 bits

Adding the last digit of a count could overflow. In a debug build that
panicked, otherwise `a{4294967299}` meant the same as `a{3}`.
---
 pango-lexer/src/regex/tokenizer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pango-lexer/src/regex/tokenizer.rs b/pango-lexer/src/regex/tokenizer.rs
index bf02df2..5c93c52 100644
--- a/pango-lexer/src/regex/tokenizer.rs
+++ b/pango-lexer/src/regex/tokenizer.rs
@@ -385,7 +385,9 @@ impl<'a> Tokenizer<'a> {
     fn take_next_decimals_and_convert_to_u32(&mut self, start: Option<u32>) -> Option<u32> {
         (&mut self.iter)
             .cautious_map_while(|(_, ch)| ch.to_digit(10))
-            .fold(start.or(Some(0)), |acc, d| Some(acc?.checked_mul(10)? + d))
+            .fold(start.or(Some(0)), |acc, d| {
+                acc?.checked_mul(10)?.checked_add(d)
+            })
     }
 
     /// Returns the end position of the current token.
-- 
2.43.0

