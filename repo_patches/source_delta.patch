From f95842517372920334729385d1a49f6a6f6d9772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:11 +0000
Subject: [PATCH 01/15] fix: wildcard transitions match the smallest and the
 largest symbol of the vocabulary

---
 src/transition.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transition.rs b/src/transition.rs
index 15f527c..b12eef8 100644
--- a/src/transition.rs
+++ b/src/transition.rs
@@ -298,7 +298,7 @@ impl Transition for WildcardTransition {
     }
 
     fn matches(&self, _symbol: isize, _min_vocab_symbol: isize, _max_vocab_symbol: isize) -> bool {
-        _symbol < _max_vocab_symbol && _symbol > _min_vocab_symbol
+        _symbol >= _min_vocab_symbol && _symbol <= _max_vocab_symbol
     }
 }
 
-- 
2.43.0


From 5aa5980f93aa7e7b0454b629545b9484d539f92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:59 +0000
Subject: [PATCH 02/15] fix: CommonTokenStream skips leading off-channel tokens
 and looks back past them

---
 src/common_token_stream.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/common_token_stream.rs b/src/common_token_stream.rs
index a56ddc7..c853197 100644
--- a/src/common_token_stream.rs
+++ b/src/common_token_stream.rs
@@ -106,10 +106,17 @@ impl<'input, T: TokenSource<'input>> CommonTokenStream<'input, T> {
             base: UnbufferedTokenStream::new_buffered(lexer),
             channel,
         };
-        r.sync(0);
+        r.setup();
         r
     }
 
+    /// moves to the first token of the stream that is on the channel
+    fn setup(&mut self) {
+        self.sync(0);
+        let first = self.next_token_on_channel(0, self.channel, 1);
+        self.base.seek(first);
+    }
+
     fn lt_inner(&mut self, k: isize) -> Option<&<T::TF as TokenFactory<'input>>::Tok> {
         let mut i = self.base.p;
         let mut n = 1; // we know tokens[p] is a good one
@@ -129,6 +136,7 @@ impl<'input, T: TokenSource<'input>> CommonTokenStream<'input, T> {
     pub fn reset(&mut self) {
         self.base.p = 0;
         self.base.current_token_index = 0;
+        self.setup();
     }
 
     /// Creates iterator over this token stream
@@ -167,11 +175,14 @@ impl<'input, T: TokenSource<'input>> CommonTokenStream<'input, T> {
 
         let mut token = self.base.tokens[i as usize].borrow();
         while token.get_channel() != channel {
-            if token.get_token_type() == EOF || i < 0 {
+            if token.get_token_type() == EOF {
                 return i;
             }
 
             i += direction;
+            if i < 0 {
+                return i;
+            }
             self.sync(i);
             token = self.base.tokens[i as usize].borrow();
         }
@@ -217,7 +228,7 @@ impl<'input, T: TokenSource<'input>> CommonTokenStream<'input, T> {
             i = self.next_token_on_channel(i - 1, self.channel, -1);
             n += 1;
         }
-        if i < 0 {
+        if i < 0 || n <= k {
             return None;
         }
 
-- 
2.43.0


From de48fe4f22d09e475f37d10ea60387ca6ee340e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:29 +0000
Subject: [PATCH 03/15] fix: error recovery does not panic when parse tree
 building is turned off

DefaultErrorStrategy kept the rule context of the last sync() and walked its
parents later. Parents are weak references, so without a parse tree they may be
gone: recover_inline() panicked on an ordinary syntax error. Keep the invocation
stack instead.
---
 src/error_strategy.rs | 24 +++++++++++++++---------
 src/errors.rs         | 10 +++++++++-
 2 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/error_strategy.rs b/src/error_strategy.rs
index 04025ad..f5df097 100644
--- a/src/error_strategy.rs
+++ b/src/error_strategy.rs
@@ -3,6 +3,7 @@ use std::borrow::Borrow;
 use std::error::Error;
 use std::fmt;
 use std::fmt::{Display, Formatter};
+use std::marker::PhantomData;
 use std::ops::{Deref, DerefMut};
 use std::rc::Rc;
 
@@ -14,7 +15,7 @@ use crate::errors::{ANTLRError, FailedPredicateError, InputMisMatchError, NoViab
 use crate::interval_set::IntervalSet;
 use crate::parser::{Parser, ParserNodeType};
 use crate::parser_rule_context::ParserRuleContext;
-use crate::rule_context::{CustomRuleContext, RuleContext};
+use crate::rule_context::{states_stack, CustomRuleContext, RuleContext};
 use crate::token::{Token, TOKEN_DEFAULT_CHANNEL, TOKEN_EOF, TOKEN_EPSILON, TOKEN_INVALID_TYPE};
 use crate::token_factory::TokenFactory;
 use crate::transition::RuleTransition;
@@ -145,7 +146,10 @@ pub struct DefaultErrorStrategy<'input, Ctx: ParserNodeType<'input>> {
     last_error_index: isize,
     last_error_states: Option<IntervalSet>,
     next_tokens_state: isize,
-    next_tokens_ctx: Option<Rc<Ctx::Type>>,
+    // invocation stack at `next_tokens_state`; contexts do not own their parents, so they may be
+    // gone by the time it is needed if parse tree is not built
+    next_tokens_stack: Option<Vec<isize>>,
+    pd: PhantomData<Rc<Ctx::Type>>,
 }
 
 better_any::tid! { impl<'i,Ctx> TidAble<'i> for DefaultErrorStrategy<'i,Ctx> where Ctx: ParserNodeType<'i>}
@@ -164,7 +168,8 @@ impl<'input, Ctx: ParserNodeType<'input>> DefaultErrorStrategy<'input, Ctx> {
             last_error_index: -1,
             last_error_states: None,
             next_tokens_state: ATNSTATE_INVALID_STATE_NUMBER,
-            next_tokens_ctx: None,
+            next_tokens_stack: None,
+            pd: PhantomData,
         }
     }
 
@@ -419,12 +424,12 @@ impl<'a, T: Parser<'a>> ErrorStrategy<'a, T> for DefaultErrorStrategy<'a, T::Nod
             return Ok(self.get_missing_symbol(recognizer));
         }
 
-        if let Some(next_tokens_ctx) = &self.next_tokens_ctx {
+        if let Some(next_tokens_stack) = &self.next_tokens_stack {
             Err(ANTLRError::InputMismatchError(
-                InputMisMatchError::with_state(
+                InputMisMatchError::with_states_stack(
                     recognizer,
                     self.next_tokens_state,
-                    next_tokens_ctx.clone(),
+                    next_tokens_stack.clone(),
                 ),
             ))
         } else {
@@ -469,14 +474,15 @@ impl<'a, T: Parser<'a>> ErrorStrategy<'a, T> for DefaultErrorStrategy<'a, T::Nod
 
         if next_tokens.contains(next) {
             self.next_tokens_state = ATNSTATE_INVALID_STATE_NUMBER;
-            self.next_tokens_ctx = None;
+            self.next_tokens_stack = None;
             return Ok(());
         }
 
         if next_tokens.contains(TOKEN_EPSILON) {
-            if self.next_tokens_ctx.is_none() {
+            if self.next_tokens_stack.is_none() {
                 self.next_tokens_state = recognizer.get_state();
-                self.next_tokens_ctx = Some(recognizer.get_parser_rule_context().clone());
+                let ctx = recognizer.get_parser_rule_context().clone();
+                self.next_tokens_stack = Some(states_stack(ctx).collect());
             }
             return Ok(());
         }
diff --git a/src/errors.rs b/src/errors.rs
index 2f1d3ae..c527323 100644
--- a/src/errors.rs
+++ b/src/errors.rs
@@ -205,11 +205,19 @@ impl InputMisMatchError {
         recognizer: &mut T,
         offending_state: isize,
         ctx: Rc<<T::Node as ParserNodeType<'a>>::Type>,
+    ) -> InputMisMatchError {
+        Self::with_states_stack(recognizer, offending_state, states_stack(ctx).collect())
+    }
+
+    pub(crate) fn with_states_stack<'a, T: Parser<'a>>(
+        recognizer: &mut T,
+        offending_state: isize,
+        states_stack: Vec<isize>,
     ) -> InputMisMatchError {
         let mut a = Self::new(recognizer);
         // a.base.ctx = ctx;
         a.base.offending_state = offending_state;
-        a.base.states_stack = states_stack(ctx).collect();
+        a.base.states_stack = states_stack;
         a
     }
 }
-- 
2.43.0


From 150f3b4e4726ff53effc0e3f6a0e2319a1a3f1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:56 +0000
Subject: [PATCH 04/15] fix: full context prediction reports the token at which
 it failed as offending token

The input was moved back to the start of the decision before the error was
created, so it always blamed the first token of the decision.
---
 src/parser_atn_simulator.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser_atn_simulator.rs b/src/parser_atn_simulator.rs
index 9043c48..9099bf4 100644
--- a/src/parser_atn_simulator.rs
+++ b/src/parser_atn_simulator.rs
@@ -475,6 +475,7 @@ impl ParserATNSimulator {
             let reach = self.compute_reach_set(&prev, t, full_ctx, local);
             prev = match reach {
                 None => {
+                    let err = self.no_viable_alt(local, &prev, self.start_index.get());
                     local.input().seek(self.start_index.get());
                     let alt = self
                         .get_syn_valid_or_sem_invalid_alt_that_finished_decision_entry_rule(
@@ -483,7 +484,7 @@ impl ParserATNSimulator {
                     if alt != INVALID_ALT {
                         return Ok(alt);
                     }
-                    return Err(self.no_viable_alt(local, &prev, self.start_index.get()));
+                    return Err(err);
                 }
                 Some(x) => x,
             };
-- 
2.43.0


From 5cf366bf747c453ca308a838a6085fb57fa02656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:53 +0000
Subject: [PATCH 05/15] fix: failed prediction releases its mark on the token
 stream

---
 src/parser_atn_simulator.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser_atn_simulator.rs b/src/parser_atn_simulator.rs
index 9099bf4..6f19c2c 100644
--- a/src/parser_atn_simulator.rs
+++ b/src/parser_atn_simulator.rs
@@ -226,13 +226,13 @@ impl ParserATNSimulator {
                 s0
             });
 
-            self.exec_atn(&mut local, s0)?
+            self.exec_atn(&mut local, s0)
         };
 
         local.input().seek(self.start_index.get());
         local.input().release(m);
         //        println!("result = {}", result);
-        Ok(result)
+        result
     }
 
     #[allow(non_snake_case)]
-- 
2.43.0


From f8b4996a191a38634816b2bef3b6cd362fbabcbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:49 +0000
Subject: [PATCH 06/15] fix: error recovery does not insert missing tokens
 forever

Single token insertion consumes nothing. If the parser comes back to the same
place because of the same current token (loop or recursive rule), it conjured up
a token again and again and never returned.
---
 src/error_strategy.rs | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/src/error_strategy.rs b/src/error_strategy.rs
index f5df097..8c8100d 100644
--- a/src/error_strategy.rs
+++ b/src/error_strategy.rs
@@ -149,6 +149,9 @@ pub struct DefaultErrorStrategy<'input, Ctx: ParserNodeType<'input>> {
     // invocation stack at `next_tokens_state`; contexts do not own their parents, so they may be
     // gone by the time it is needed if parse tree is not built
     next_tokens_stack: Option<Vec<isize>>,
+    // places where a missing token was already conjured up at `last_insertion_index`
+    last_insertion_index: isize,
+    last_insertions: Vec<(isize, Vec<isize>)>,
     pd: PhantomData<Rc<Ctx::Type>>,
 }
 
@@ -169,6 +172,8 @@ impl<'input, Ctx: ParserNodeType<'input>> DefaultErrorStrategy<'input, Ctx> {
             last_error_states: None,
             next_tokens_state: ATNSTATE_INVALID_STATE_NUMBER,
             next_tokens_stack: None,
+            last_insertion_index: -1,
+            last_insertions: vec![],
             pd: PhantomData,
         }
     }
@@ -289,13 +294,39 @@ impl<'input, Ctx: ParserNodeType<'input>> DefaultErrorStrategy<'input, Ctx> {
             atn.states[next].as_ref(),
             Some(recognizer.get_parser_rule_context().deref()),
         );
-        if expect_at_ll2.contains(current_token) {
+        if expect_at_ll2.contains(current_token) && self.is_new_insertion(recognizer) {
             self.report_missing_token(recognizer);
             return true;
         }
         false
     }
 
+    /// Failsafe against endless recovery: single token insertion consumes nothing, so parser
+    /// must not insert tokens in the same place over and over again (think of a loop
+    /// or a recursive rule which is entered again because of the same current token).
+    fn is_new_insertion<T: Parser<'input, Node = Ctx, TF = Ctx::TF>>(
+        &mut self,
+        recognizer: &mut T,
+    ) -> bool {
+        let index = recognizer.get_input_stream_mut().index();
+        if self.last_insertion_index != index {
+            self.last_insertion_index = index;
+            self.last_insertions.clear();
+        }
+        let ctx = recognizer.get_parser_rule_context().clone();
+        let place = if ctx.start().get_token_index() == index {
+            // rule was entered after the last consumed token
+            (recognizer.get_state(), vec![])
+        } else {
+            (recognizer.get_state(), states_stack(ctx).collect())
+        };
+        let is_new = !self.last_insertions.contains(&place);
+        if is_new {
+            self.last_insertions.push(place);
+        }
+        is_new
+    }
+
     fn single_token_deletion<'a, T: Parser<'input, Node = Ctx, TF = Ctx::TF>>(
         &mut self,
         recognizer: &'a mut T,
-- 
2.43.0


From fc5b1b003a8863c399b997628a85597f32940864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:42 +0000
Subject: [PATCH 07/15] fix: mismatch error does not report tokens expected at
 an earlier position

DefaultErrorStrategy::sync() remembers the state in which the next token might
not match, but that was kept after the token had been matched, so a later mismatch
was reported with a stale list of expected tokens.
---
 src/error_strategy.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/error_strategy.rs b/src/error_strategy.rs
index 8c8100d..60056d6 100644
--- a/src/error_strategy.rs
+++ b/src/error_strategy.rs
@@ -563,6 +563,9 @@ impl<'a, T: Parser<'a>> ErrorStrategy<'a, T> for DefaultErrorStrategy<'a, T::Nod
 
     fn report_match(&mut self, recognizer: &mut T) {
         self.end_error_condition(recognizer);
+        // what `sync` has remembered is about the token that has just been matched
+        self.next_tokens_state = ATNSTATE_INVALID_STATE_NUMBER;
+        self.next_tokens_stack = None;
         //println!("matched token succesfully {}", recognizer.get_input_stream().la(1))
     }
 }
-- 
2.43.0


From 704bc74b58a15b343bcbd3c0f683cdebd5e37192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:25 +0000
Subject: [PATCH 08/15] fix: adding an interval to an interval set merges all
 the intervals it overlaps

---
 src/interval_set.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/interval_set.rs b/src/interval_set.rs
index 9707c1f..51f6a5b 100644
--- a/src/interval_set.rs
+++ b/src/interval_set.rs
@@ -130,23 +130,19 @@ impl IntervalSet {
 
             if added.adjacent(r) || !added.disjoint(r) {
                 // next to each other, make a single larger interval
-                let bigger = added.union(r);
+                let mut bigger = added.union(r);
                 *r = bigger;
                 // make sure we didn't just create an interval that
                 // should be merged with next interval in list
-                loop {
-                    i += 1;
-                    let next = match self.intervals.get(i) {
-                        Some(v) => v,
-                        None => break,
-                    };
+                while let Some(next) = self.intervals.get(i + 1) {
                     if !bigger.adjacent(next) && bigger.disjoint(next) {
                         break;
                     }
 
                     // if we bump up against or overlap next, merge
-                    self.intervals[i - 1] = bigger.union(next); // set to 3 merged ones
-                    self.intervals.remove(i);
+                    bigger = bigger.union(next);
+                    self.intervals[i] = bigger; // set to 3 merged ones
+                    self.intervals.remove(i + 1);
                 }
                 return;
             }
-- 
2.43.0


From a699891e7de61fb72c1eb5c7c768d9290599054a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:35 +0000
Subject: [PATCH 09/15] fix: transitions on U+FFFE and U+FFFF are deserialized
 as these characters

---
 src/atn_deserializer.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/atn_deserializer.rs b/src/atn_deserializer.rs
index 593da83..1ac386c 100644
--- a/src/atn_deserializer.rs
+++ b/src/atn_deserializer.rs
@@ -468,6 +468,9 @@ impl ATNDeserializer {
         //            interval_set: IntervalSet::new_interval_set(),
         //        };
 
+        // serialized values wrap around at 16 bits, so U+FFFE and U+FFFF come as -2 and -1
+        let symbol = |arg: isize| arg as u16 as isize;
+
         match type_index {
             TRANSITION_EPSILON => Box::new(EpsilonTransition {
                 target,
@@ -478,9 +481,9 @@ impl ATNDeserializer {
                 start: if arg3 != 0 {
                     super::token::TOKEN_EOF
                 } else {
-                    arg1
+                    symbol(arg1)
                 },
-                stop: arg2,
+                stop: symbol(arg2),
             }),
             TRANSITION_RULE => {
                 //                base.set_target(arg1 as usize);
@@ -499,7 +502,7 @@ impl ATNDeserializer {
             }),
             TRANSITION_ATOM => Box::new(AtomTransition {
                 target,
-                label: if arg3 != 0 { EOF } else { arg1 },
+                label: if arg3 != 0 { EOF } else { symbol(arg1) },
             }),
             TRANSITION_ACTION => Box::new(ActionTransition {
                 target,
-- 
2.43.0


From 5c25ef954c3859048ba9e0c7f8851b2450bcb107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:10 +0000
Subject: [PATCH 10/15] fix: lexer DFA states with different lexer actions are
 kept apart

---
 src/lexer_action_executor.rs | 10 ++++------
 src/lexer_atn_simulator.rs   | 24 +++++++++++-------------
 2 files changed, 15 insertions(+), 19 deletions(-)

diff --git a/src/lexer_action_executor.rs b/src/lexer_action_executor.rs
index 4bfaaa7..76ac00d 100644
--- a/src/lexer_action_executor.rs
+++ b/src/lexer_action_executor.rs
@@ -39,11 +39,9 @@ impl LexerActionExecutor {
         old: Option<&Self>,
         lexer_action: LexerAction,
     ) -> LexerActionExecutor {
-        let mut new = old
-            .cloned()
-            .unwrap_or_else(|| LexerActionExecutor::new(Vec::new()));
-        new.lexer_actions.push(lexer_action);
-        new
+        let mut lexer_actions = old.map_or_else(Vec::new, |old| old.lexer_actions.clone());
+        lexer_actions.push(lexer_action);
+        LexerActionExecutor::new(lexer_actions)
     }
 
     pub fn fix_offset_before_match(mut self, offset: isize) -> LexerActionExecutor {
@@ -60,7 +58,7 @@ impl LexerActionExecutor {
                 }
             }
         }
-        self
+        LexerActionExecutor::new(self.lexer_actions)
     }
 
     pub fn execute<'input>(&self, lexer: &mut impl Lexer<'input>, start_index: isize) {
diff --git a/src/lexer_atn_simulator.rs b/src/lexer_atn_simulator.rs
index 433324d..f011142 100644
--- a/src/lexer_atn_simulator.rs
+++ b/src/lexer_atn_simulator.rs
@@ -691,19 +691,17 @@ impl LexerATNSimulator {
 
         let states = &mut dfa.states;
         let key = dfastate.default_hash();
-        let dfastate_index = *dfa
-            .states_map
-            .entry(key)
-            .or_insert_with(|| {
-                dfastate.state_number = states.deref().len();
-                dfastate.configs.set_read_only(true);
-                let i = dfastate.state_number;
-                //println!("inserting new DFA state {} with size {}", i, dfastate.configs.length());
-                states.push(dfastate);
-                vec![i]
-            })
-            .first()
-            .unwrap();
+        let same_hash = dfa.states_map.entry(key).or_insert_with(Vec::new);
+        if let Some(&existing) = same_hash.iter().find(|&&it| states[it] == dfastate) {
+            return existing;
+        }
+
+        let dfastate_index = states.deref().len();
+        dfastate.state_number = dfastate_index;
+        dfastate.configs.set_read_only(true);
+        //println!("inserting new DFA state {} with size {}", i, dfastate.configs.length());
+        states.push(dfastate);
+        same_hash.push(dfastate_index);
 
         //println!("new DFA state {}", dfastate_index);
 
-- 
2.43.0


From 548b6cb9b0e2aa738ac2d46dc93d489e1869b8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:13 +0000
Subject: [PATCH 11/15] fix: cached lexer DFA edges do not replay action
 positions of tokens of another length

---
 src/lexer_action_executor.rs |  8 ++++++++
 src/lexer_atn_simulator.rs   | 10 +++++++---
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/lexer_action_executor.rs b/src/lexer_action_executor.rs
index 76ac00d..e961029 100644
--- a/src/lexer_action_executor.rs
+++ b/src/lexer_action_executor.rs
@@ -44,6 +44,14 @@ impl LexerActionExecutor {
         LexerActionExecutor::new(lexer_actions)
     }
 
+    /// `true` if some action depends on position, but does not have its offset assigned yet
+    pub fn needs_offset(&self) -> bool {
+        self.lexer_actions.iter().any(|action| match action {
+            LexerAction::LexerIndexedCustomAction { .. } => false,
+            _ => action.is_position_dependent(),
+        })
+    }
+
     pub fn fix_offset_before_match(mut self, offset: isize) -> LexerActionExecutor {
         for action in self.lexer_actions.iter_mut() {
             match action {
diff --git a/src/lexer_atn_simulator.rs b/src/lexer_atn_simulator.rs
index f011142..d974325 100644
--- a/src/lexer_atn_simulator.rs
+++ b/src/lexer_atn_simulator.rs
@@ -285,7 +285,7 @@ impl LexerATNSimulator {
         lexer: &mut impl Lexer<'input>,
     ) -> DFAStateRef {
         let mut reach = ATNConfigSet::new_ordered();
-        self.get_reachable_config_set(
+        let position_dependent = self.get_reachable_config_set(
             &dfa.as_ref().unwrap().states[s].configs,
             &mut reach,
             _t,
@@ -303,7 +303,8 @@ impl LexerATNSimulator {
             return ERROR_DFA_STATE_REF;
         }
 
-        let supress_edge = reach.has_semantic_context();
+        // offsets of actions are only valid for the current token length
+        let supress_edge = reach.has_semantic_context() || position_dependent;
         reach.set_has_semantic_context(false);
         let to = self.add_dfastate(&mut dfa_mut, Box::new(reach));
         if !supress_edge {
@@ -324,8 +325,9 @@ impl LexerATNSimulator {
         _reach: &mut ATNConfigSet,
         _t: isize,
         lexer: &mut impl Lexer<'input>,
-    ) {
+    ) -> bool {
         let mut skip_alt = 0;
+        let mut position_dependent = false;
         //        println!(" --- source {:?}", _closure.configs.iter().map(|it|it.get_state()).collect::<Vec<_>>());
         for config in _closure.get_items() {
             let current_alt_reached_accept_state = config.get_alt() == skip_alt;
@@ -342,6 +344,7 @@ impl LexerATNSimulator {
             for tr in atn_state.get_transitions() {
                 if let Some(target) = tr.get_reachable_target(_t) {
                     let exec = config.get_lexer_executor().map(|x| {
+                        position_dependent |= x.needs_offset();
                         x.clone()
                             .fix_offset_before_match(lexer.input().index() - self.start_index)
                     });
@@ -361,6 +364,7 @@ impl LexerATNSimulator {
                 }
             }
         }
+        position_dependent
     }
 
     //    fn get_reachable_target<T>(&self, states: &T, _trans: &Transition, _t: isize) -> &ATNState
-- 
2.43.0


From 5927278f44b491c3e3e18dcc698d9e772140cf7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:16 +0000
Subject: [PATCH 12/15] fix: token set by a lexer action is returned instead of
 being dropped

---
 src/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index 88fefcd..d0d3800 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -381,8 +381,8 @@ where
 
             if self.token.is_none() {
                 self.emit();
-                break;
             }
+            break;
         }
         self.input().release(_marker);
         self.token.take().unwrap()
-- 
2.43.0


From 080662357a358858ac61af638208728846ea951c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:28 +0000
Subject: [PATCH 13/15] fix: the iterator over a stream consumed at EOF and
 panicked

---
 src/int_stream.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/int_stream.rs b/src/int_stream.rs
index 1ae40bc..c4451bd 100644
--- a/src/int_stream.rs
+++ b/src/int_stream.rs
@@ -75,11 +75,12 @@ impl<'a, T: IntStream> Iterator for IterWrapper<'a, T> {
     type Item = isize;
 
     fn next(&mut self) -> Option<Self::Item> {
-        let result = self.0.la(1);
-        self.0.consume();
-        match result {
+        match self.0.la(1) {
             EOF => None,
-            x => Some(x),
+            x => {
+                self.0.consume();
+                Some(x)
+            }
         }
     }
 }
-- 
2.43.0


From 724424fe510a98c4f6a42fa5ed6136a426df8054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:28 +0000
Subject: [PATCH 14/15] fix: UnbufferedTokenStream lookback, lookahead past
 EOF, forward seek and buffer release

LT(-1) at the start of the stream overflowed and was lost when the buffer was
released, LT(-k) was off by one, LA past EOF returned the invalid type instead
of EOF, seek forward stopped early and was not clamped, and tokens were never
dropped from the window when no mark was held.
---
 src/token_stream.rs | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/token_stream.rs b/src/token_stream.rs
index 9623c72..3488d91 100644
--- a/src/token_stream.rs
+++ b/src/token_stream.rs
@@ -73,7 +73,7 @@ impl<'a, 'input: 'a, T: TokenStream<'input>> Iterator for TokenIter<'a, 'input,
 pub struct UnbufferedTokenStream<'input, T: TokenSource<'input>> {
     token_source: T,
     pub(crate) tokens: Vec<<T::TF as TokenFactory<'input>>::Tok>,
-    //todo prev token for lt(-1)
+    // the token before `p` is always kept for lt(-1)
     pub(crate) current_token_index: isize,
     markers_count: isize,
     pub(crate) p: isize,
@@ -154,13 +154,15 @@ impl<'input, T: TokenSource<'input>> TokenStream<'input> for UnbufferedTokenStre
 
     #[inline]
     fn lt(&mut self, i: isize) -> Option<&<Self::TF as TokenFactory<'input>>::Tok> {
-        if i == -1 {
-            return self.tokens.get(self.p as usize - 1);
+        if i < 0 {
+            return self.tokens.get((self.p + i) as usize);
         }
 
         self.sync(i);
 
-        self.tokens.get((self.p + i - 1) as usize)
+        // there is nothing but EOF at and beyond the end of the stream
+        let index = min(self.p + i, self.size()) - 1;
+        self.tokens.get(index as usize)
     }
 
     #[inline]
@@ -208,9 +210,9 @@ impl<'input, T: TokenSource<'input>> IntStream for UnbufferedTokenStream<'input,
             panic!("cannot consume EOF");
         }
 
-        if self.p == self.tokens.len() as isize && self.markers_count == 0 {
-            self.tokens.clear();
-            self.p = -1;
+        if self.p == self.tokens.len() as isize - 1 && self.markers_count == 0 {
+            self.tokens.drain(0..self.p as usize);
+            self.p = 0;
         }
 
         self.p += 1;
@@ -239,8 +241,8 @@ impl<'input, T: TokenSource<'input>> IntStream for UnbufferedTokenStream<'input,
 
         self.markers_count -= 1;
         if self.markers_count == 0 {
-            if self.p > 0 {
-                self.tokens.drain(0..self.p as usize);
+            if self.p > 1 {
+                self.tokens.drain(0..self.p as usize - 1);
                 //todo drain assembly is almost 2x longer than
                 // unsafe manual copy but need to bench before using unsafe
                 //let new_len = self.tokens.len() - self.p as usize;
@@ -258,7 +260,7 @@ impl<'input, T: TokenSource<'input>> IntStream for UnbufferedTokenStream<'input,
                 //     self.tokens.set_len(new_len);
                 // }
 
-                self.p = 0;
+                self.p = 1;
             }
         }
     }
@@ -274,8 +276,8 @@ impl<'input, T: TokenSource<'input>> IntStream for UnbufferedTokenStream<'input,
             return;
         }
         if index > self.current_token_index {
-            self.sync(index - self.current_token_index);
-            index = min(index, self.get_buffer_start_index() + self.size() + 1);
+            self.sync(index - self.current_token_index + 1);
+            index = min(index, self.get_buffer_start_index() + self.size() - 1);
         }
         let i = index - self.get_buffer_start_index();
         if i < 0 || i >= self.tokens.len() as isize {
-- 
2.43.0


From afc607464e705cc4191bf4e16446713b147aeca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:56 +0000
Subject: [PATCH 15/15] fix: do not share the context merge cache between SLL
 and full context prediction

The empty context means "any caller" in the first stage and "end of input"
in the second, so a merge remembered by the first stage is wrong in the
second, and whether it happened depends on what the DFA already contained.
---
 src/parser_atn_simulator.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser_atn_simulator.rs b/src/parser_atn_simulator.rs
index 6f19c2c..9df3eb8 100644
--- a/src/parser_atn_simulator.rs
+++ b/src/parser_atn_simulator.rs
@@ -301,6 +301,9 @@ impl ParserATNSimulator {
                 );
                 local.dfa = Some(dfa);
 
+                // an empty context has another meaning in full context mode
+                local.merge_cache.clear();
+
                 let s0_closure = self.compute_start_state(
                     local.dfa().atn_start_state,
                     PredictionContext::from_rule_context::<T::Node>(
-- 
2.43.0

