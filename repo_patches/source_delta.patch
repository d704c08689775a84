From 808e907ea07a8a033101c950dd2b6c9e26949fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:02 +0000
Subject: [PATCH 01/30] fix: anchor every top level alternative of a token or
 skip pattern

---
 lexan/src/matcher.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/lexan/src/matcher.rs b/lexan/src/matcher.rs
index f4a4262..2b25b07 100644
--- a/lexan/src/matcher.rs
+++ b/lexan/src/matcher.rs
@@ -121,6 +121,13 @@ impl<T: Eq + Debug + Copy + Ord + Display> LiteralMatcher<T> {
     }
 }
 
+/// Returns `pattern`, which must be well formed by itself, anchored to the start of text. The
+/// whole pattern is grouped so that all of its top level alternatives are anchored.
+fn anchored_regex(pattern: &str) -> Result<Regex, regex::Error> {
+    Regex::new(pattern)?;
+    Regex::new(&format!("\\A(?:{pattern})"))
+}
+
 #[derive(Debug, Default)]
 pub(crate) struct RegexMatcher<T: Copy + Debug> {
     lexemes: Vec<(T, Regex)>,
@@ -133,9 +140,7 @@ impl<T: Copy + Ord + Debug + Display> RegexMatcher<T> {
             if pattern.is_empty() {
                 return Err(LexanError::EmptyPattern(Some(*tag)));
             };
-            let mut anchored_pattern = "\\A".to_string();
-            anchored_pattern.push_str(pattern);
-            lexemes.push((*tag, Regex::new(&anchored_pattern)?));
+            lexemes.push((*tag, anchored_regex(pattern)?));
         }
         Ok(Self { lexemes })
     }
@@ -182,9 +187,7 @@ impl SkipMatcher {
             if regex_str.is_empty() {
                 return Err(LexanError::EmptyPattern(None));
             };
-            let mut anchored_pattern = "\\A".to_string();
-            anchored_pattern.push_str(regex_str);
-            regexes.push(Regex::new(&anchored_pattern)?);
+            regexes.push(anchored_regex(regex_str)?);
         }
         Ok(Self { regexes })
     }
-- 
2.43.0


From 5ae0999101d41a48346ec997bb0169089ee16314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:17 +0000
Subject: [PATCH 02/30] fix: ignore empty matches of token and skip patterns

---
 lexan/src/matcher.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lexan/src/matcher.rs b/lexan/src/matcher.rs
index 2b25b07..af825e6 100644
--- a/lexan/src/matcher.rs
+++ b/lexan/src/matcher.rs
@@ -150,7 +150,8 @@ impl<T: Copy + Ord + Debug + Display> RegexMatcher<T> {
         let mut matches = vec![];
         let mut largest_end = 0;
         for (tag, regex) in self.lexemes.iter() {
-            if let Some(m) = regex.find(text) {
+            // NB an empty match is not a match (accepting it would prevent progress)
+            if let Some(m) = regex.find(text).filter(|m| m.end() > 0) {
                 match m.end().cmp(&largest_end) {
                     Ordering::Equal => matches.push(*tag),
                     Ordering::Greater => {
@@ -167,7 +168,7 @@ impl<T: Copy + Ord + Debug + Display> RegexMatcher<T> {
     /// Returns `true` if we match the start of the text
     pub fn matches(&self, text: &str) -> bool {
         for (_, regex) in self.lexemes.iter() {
-            if regex.find(text).is_some() {
+            if regex.find(text).is_some_and(|m| m.end() > 0) {
                 return true;
             }
         }
@@ -197,7 +198,7 @@ impl SkipMatcher {
         let mut index = 0;
         'outer: while index < text.len() {
             for regex in self.regexes.iter() {
-                if let Some(m) = regex.find(&text[index..]) {
+                if let Some(m) = regex.find(&text[index..]).filter(|m| m.end() > 0) {
                     index += m.end();
                     continue 'outer;
                 }
@@ -209,7 +210,7 @@ impl SkipMatcher {
 
     pub fn matches(&self, text: &str) -> bool {
         for regex in self.regexes.iter() {
-            if regex.find(text).is_some() {
+            if regex.find(text).is_some_and(|m| m.end() > 0) {
                 return true;
             }
         }
-- 
2.43.0


From 4bb8da04dac706461f03ac9eaa69177e5980a471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:17 +0000
Subject: [PATCH 03/30] fix: look for valid content at character boundaries
 only

---
 lexan/src/lexicon.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lexan/src/lexicon.rs b/lexan/src/lexicon.rs
index e57e0ae..f61cbcc 100644
--- a/lexan/src/lexicon.rs
+++ b/lexan/src/lexicon.rs
@@ -75,7 +75,7 @@ where
 
     /// Returns the distance in bytes to the next valid content in `text`
     pub fn distance_to_next_valid_byte(&self, text: &str) -> usize {
-        for index in 0..text.len() {
+        for (index, _) in text.char_indices() {
             if self.literal_matcher.matches(&text[index..]) {
                 return index;
             }
-- 
2.43.0


From 474a18137f3a003cc6acd9455b06ecadabf85131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:17 +0000
Subject: [PATCH 04/30] fix: count every line feed when line ends are mixed

---
 lexan/src/analyzer.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/lexan/src/analyzer.rs b/lexan/src/analyzer.rs
index 3952d04..7e80ac0 100644
--- a/lexan/src/analyzer.rs
+++ b/lexan/src/analyzer.rs
@@ -178,11 +178,7 @@ where
         let slice = &self.text[self.index..next_index];
         let mut i = 0;
         while i < length {
-            if let Some(eol_i) = slice[i..].find("\r\n") {
-                self.location.line_number += 1;
-                self.location.offset = 1;
-                i += eol_i + 2;
-            } else if let Some(eol_i) = slice[i..].find('\n') {
+            if let Some(eol_i) = slice[i..].find('\n') {
                 self.location.line_number += 1;
                 self.location.offset = 1;
                 i += eol_i + 1;
-- 
2.43.0


From 28bd4fc62855a44a2d2d84e6146d562e77d84a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:17 +0000
Subject: [PATCH 05/30] fix: put the end marker at the front of a stream
 without tokens

---
 lexan/src/analyzer.rs | 13 +++++++++++++
 lexan/src/lib.rs      |  2 +-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/lexan/src/analyzer.rs b/lexan/src/analyzer.rs
index 7e80ac0..386dcc4 100644
--- a/lexan/src/analyzer.rs
+++ b/lexan/src/analyzer.rs
@@ -274,6 +274,19 @@ where
         stream
     }
 
+    /// Stream whose front is the end marker if `text` contains no tokens
+    pub(crate) fn starting_with(lexicon: &Arc<Lexicon<T>>, text: &str, label: &str) -> Self {
+        let mut stream = Self::new(lexicon, text, label);
+        if stream.is_empty() {
+            stream.front = Ok(Token {
+                tag: lexicon.end_marker(),
+                lexeme: String::new(),
+                location: BasicTokenStream::new(lexicon, text, label).location(),
+            });
+        }
+        stream
+    }
+
     pub fn is_empty(&self) -> bool {
         self.token_stream_stack.len() == 0
     }
diff --git a/lexan/src/lib.rs b/lexan/src/lib.rs
index 65485be..acb57a7 100644
--- a/lexan/src/lib.rs
+++ b/lexan/src/lib.rs
@@ -39,7 +39,7 @@ where
     }
 
     pub fn token_stream(&self, text: &str, label: &str) -> TokenStream<T> {
-        TokenStream::new(&self.lexicon, text, label)
+        TokenStream::starting_with(&self.lexicon, text, label)
     }
 }
 
-- 
2.43.0


From 8cfc2290094136e7ef99fa1ae936321fbab35098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:06 +0000
Subject: [PATCH 06/30] fix: consider the start state when looking for an error
 recovery state

The loop over the state stack stopped one short of its bottom, so an error
before the first reduction to the start symbol's predecessor was never
recovered from, although the generated tables list state 0 as viable.
---
 alalr1/src/lib.rs | 2 +-
 lalr1/src/lib.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/alalr1/src/lib.rs b/alalr1/src/lib.rs
index 135a747..03ff5b7 100644
--- a/alalr1/src/lib.rs
+++ b/alalr1/src/lib.rs
@@ -113,7 +113,7 @@ where
         while !tokens.is_empty() {
             if let Ok(token) = tokens.front() {
                 let viable_states = viable_error_recovery_states(token.tag());
-                for sub in 1..self.states.len() {
+                for sub in 1..=self.states.len() {
                     let candidate = self.states[self.states.len() - sub].1;
                     if !self.is_last_error_state(candidate) && viable_states.contains(&candidate) {
                         self.last_error_state = Some(candidate);
diff --git a/lalr1/src/lib.rs b/lalr1/src/lib.rs
index 0b5ea6f..81bd696 100644
--- a/lalr1/src/lib.rs
+++ b/lalr1/src/lib.rs
@@ -171,7 +171,7 @@ where
         while !tokens.is_empty() {
             if let Ok(token) = tokens.front() {
                 let viable_states = viable_error_recovery_states(token.tag());
-                for sub in 1..self.states.len() {
+                for sub in 1..=self.states.len() {
                     let candidate = self.states[self.states.len() - sub].1;
                     if !self.is_last_error_state(candidate) && viable_states.contains(&candidate) {
                         self.last_error_state = Some(candidate);
-- 
2.43.0


From d40baa6af2f61274eecf442c23b21f4e25c4321b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:44 +0000
Subject: [PATCH 07/30] fix: do not retry error recovery states without
 consuming a token

Only the last state recovery resumed in was excluded, so two viable states
could be used alternately for ever on the same token.
---
 alalr1/src/lib.rs | 11 ++++++++++-
 lalr1/src/lib.rs  | 11 ++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/alalr1/src/lib.rs b/alalr1/src/lib.rs
index 03ff5b7..feefc7f 100644
--- a/alalr1/src/lib.rs
+++ b/alalr1/src/lib.rs
@@ -49,6 +49,8 @@ where
     states: Vec<(Symbol<T, N>, u32)>,
     attributes: Vec<A>,
     last_error_state: Option<u32>,
+    // states in which recovery has been tried since a token was last consumed
+    tried_error_states: Vec<u32>,
 }
 
 impl<T, N, A> ParseStack<T, N, A>
@@ -61,6 +63,7 @@ where
             states: vec![(Symbol::Start, 0)],
             attributes: vec![],
             last_error_state: None,
+            tried_error_states: vec![],
         }
     }
 
@@ -89,6 +92,7 @@ where
         self.states
             .push((Symbol::Terminal(*token.tag()), new_state));
         self.attributes.push(A::from(token));
+        self.tried_error_states.clear();
     }
 
     fn push_non_terminal(&mut self, non_terminal: N, attribute: A, new_state: u32) {
@@ -115,13 +119,18 @@ where
                 let viable_states = viable_error_recovery_states(token.tag());
                 for sub in 1..=self.states.len() {
                     let candidate = self.states[self.states.len() - sub].1;
-                    if !self.is_last_error_state(candidate) && viable_states.contains(&candidate) {
+                    if !self.is_last_error_state(candidate)
+                        && !self.tried_error_states.contains(&candidate)
+                        && viable_states.contains(&candidate)
+                    {
                         self.last_error_state = Some(candidate);
+                        self.tried_error_states.push(candidate);
                         return Some(sub - 1);
                     }
                 }
             };
             tokens.advance();
+            self.tried_error_states.clear();
         }
         None
     }
diff --git a/lalr1/src/lib.rs b/lalr1/src/lib.rs
index 81bd696..48abbb0 100644
--- a/lalr1/src/lib.rs
+++ b/lalr1/src/lib.rs
@@ -107,6 +107,8 @@ where
     states: Vec<(Symbol<T, N>, u32)>,
     attributes: Vec<A>,
     last_error_state: Option<u32>,
+    // states in which recovery has been tried since a token was last consumed
+    tried_error_states: Vec<u32>,
 }
 
 impl<T, N, A> ParseStack<T, N, A>
@@ -119,6 +121,7 @@ where
             states: vec![(Symbol::Start, 0)],
             attributes: vec![],
             last_error_state: None,
+            tried_error_states: vec![],
         }
     }
 
@@ -147,6 +150,7 @@ where
         self.states
             .push((Symbol::Terminal(*token.tag()), new_state));
         self.attributes.push(A::from(token));
+        self.tried_error_states.clear();
     }
 
     fn push_non_terminal(&mut self, non_terminal: N, attribute: A, new_state: u32) {
@@ -173,13 +177,18 @@ where
                 let viable_states = viable_error_recovery_states(token.tag());
                 for sub in 1..=self.states.len() {
                     let candidate = self.states[self.states.len() - sub].1;
-                    if !self.is_last_error_state(candidate) && viable_states.contains(&candidate) {
+                    if !self.is_last_error_state(candidate)
+                        && !self.tried_error_states.contains(&candidate)
+                        && viable_states.contains(&candidate)
+                    {
                         self.last_error_state = Some(candidate);
+                        self.tried_error_states.push(candidate);
                         return Some(sub - 1);
                     }
                 }
             };
             tokens.advance();
+            self.tried_error_states.clear();
         }
         None
     }
-- 
2.43.0


From c0bd3526f54eec53af27f00a27e57e3680265cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:21 +0000
Subject: [PATCH 08/30] fix: compute FIRST sets as a fix point

The recursive computation never ended on indirectly left recursive grammars
and could miss transparency found while iterating.
---
 alalr1_lib/src/grammar.rs             | 30 ++++++---
 alalr1_lib/src/symbol/non_terminal.rs | 96 ++++++++++++---------------
 lalr1_lib/src/grammar.rs              | 30 ++++++---
 lalr1_lib/src/symbol/non_terminal.rs  | 96 ++++++++++++---------------
 4 files changed, 120 insertions(+), 132 deletions(-)

diff --git a/alalr1_lib/src/grammar.rs b/alalr1_lib/src/grammar.rs
index 0a3c1a5..098b8bd 100644
--- a/alalr1_lib/src/grammar.rs
+++ b/alalr1_lib/src/grammar.rs
@@ -56,20 +56,28 @@ impl Specification {
         if !spec.symbol_table.error_non_terminal().is_unused() {
             spec.productions.push(Production::new(symbol, tail));
         }
-        spec.symbol_table
-            .start_non_terminal()
-            .set_firsts_data(&spec.productions);
-        spec.symbol_table
-            .error_non_terminal()
-            .set_firsts_data(&spec.productions);
-        for non_terminal in spec.symbol_table.non_terminals() {
-            //if non_terminal.firsts_data_is_none() {
-            non_terminal.set_firsts_data(&spec.productions)
-            //}
-        }
+        spec.set_firsts_data();
         Ok(spec)
     }
 
+    fn set_firsts_data(&self) {
+        let mut changed = true;
+        while changed {
+            changed = self
+                .symbol_table
+                .error_non_terminal()
+                .update_firsts_data(&self.productions);
+            for non_terminal in self.symbol_table.non_terminals() {
+                changed = non_terminal.update_firsts_data(&self.productions) || changed;
+            }
+            changed = self
+                .symbol_table
+                .start_non_terminal()
+                .update_firsts_data(&self.productions)
+                || changed;
+        }
+    }
+
     pub fn is_allowable_name(name: &str) -> bool {
         !(name.starts_with("aa") || name.starts_with("AA"))
     }
diff --git a/alalr1_lib/src/symbol/non_terminal.rs b/alalr1_lib/src/symbol/non_terminal.rs
index b6b8b0c..a701a3d 100644
--- a/alalr1_lib/src/symbol/non_terminal.rs
+++ b/alalr1_lib/src/symbol/non_terminal.rs
@@ -180,75 +180,61 @@ impl NonTerminal {
         }
     }
 
-    fn firsts_data_is_set(&self) -> bool {
+    /// Recompute the firsts data from that of the non terminals on the right hand
+    /// sides (unset ones count as empty) and report whether it has changed.
+    /// The final values are reached when no non terminal's data changes any more.
+    pub fn update_firsts_data(&self, productions: &[Production]) -> bool {
         match self {
             NonTerminal::UserDefined(non_terminal_data)
             | NonTerminal::Error(non_terminal_data)
             | NonTerminal::Start(non_terminal_data) => {
-                non_terminal_data.firsts_data.borrow().is_some()
-            }
-        }
-    }
-
-    pub fn set_firsts_data(&self, productions: &[Production]) {
-        match self {
-            NonTerminal::UserDefined(non_terminal_data)
-            | NonTerminal::Error(non_terminal_data)
-            | NonTerminal::Start(non_terminal_data) => {
-                if non_terminal_data.firsts_data.borrow().is_some() {
-                    return;
-                }
-                let relevant_productions: Vec<Production> = productions
-                    .iter()
-                    .filter(|x| x.left_hand_side() == self)
-                    .cloned()
-                    .collect();
-                let mut transparent = relevant_productions.iter().any(|x| x.is_empty());
                 let mut token_set = TokenSet::new();
-                let mut transparency_changed = true;
-                while transparency_changed {
-                    transparency_changed = false;
-                    for production in relevant_productions.iter() {
-                        let mut transparent_production = true;
-                        for rhs_symbol in production.right_hand_side_symbols() {
-                            match rhs_symbol {
-                                Symbol::NonTerminal(non_terminal) => {
-                                    if non_terminal == self {
-                                        if transparent {
-                                            continue;
-                                        } else {
-                                            transparent_production = false;
-                                            break;
-                                        }
-                                    }
-                                    if !non_terminal.firsts_data_is_set() {
-                                        non_terminal.set_firsts_data(productions);
-                                    }
-                                    let firsts_data = non_terminal.firsts_data();
-                                    token_set |= &firsts_data.token_set;
-                                    if !firsts_data.transparent {
-                                        transparent_production = false;
-                                        break;
-                                    }
-                                }
-                                Symbol::Terminal(token) => {
-                                    token_set.insert(token);
-                                    transparent_production = false;
-                                    break;
-                                }
+                let mut transparent = false;
+                for production in productions.iter().filter(|x| x.left_hand_side() == self) {
+                    let mut transparent_production = true;
+                    for rhs_symbol in production.right_hand_side_symbols() {
+                        match rhs_symbol {
+                            Symbol::NonTerminal(non_terminal) => {
+                                let firsts_data = non_terminal.current_firsts_data();
+                                token_set |= &firsts_data.token_set;
+                                transparent_production = firsts_data.transparent;
+                            }
+                            Symbol::Terminal(token) => {
+                                token_set.insert(token);
+                                transparent_production = false;
                             }
                         }
-                        if transparent_production {
-                            transparency_changed = !transparent;
-                            transparent = true;
+                        if !transparent_production {
+                            break;
                         }
                     }
+                    transparent = transparent || transparent_production;
                 }
-                *non_terminal_data.firsts_data.borrow_mut() = Some(FirstsData {
+                let mut firsts_data = non_terminal_data.firsts_data.borrow_mut();
+                let changed = match firsts_data.as_ref() {
+                    Some(old) => {
+                        old.transparent != transparent || old.token_set.len() != token_set.len()
+                    }
+                    None => true,
+                };
+                *firsts_data = Some(FirstsData {
                     token_set,
                     transparent,
                 });
+                changed
             }
         }
     }
+
+    fn current_firsts_data(&self) -> FirstsData {
+        match self {
+            NonTerminal::UserDefined(non_terminal_data)
+            | NonTerminal::Error(non_terminal_data)
+            | NonTerminal::Start(non_terminal_data) => non_terminal_data
+                .firsts_data
+                .borrow()
+                .clone()
+                .unwrap_or_default(),
+        }
+    }
 }
diff --git a/lalr1_lib/src/grammar.rs b/lalr1_lib/src/grammar.rs
index 7d7129c..a9b0438 100644
--- a/lalr1_lib/src/grammar.rs
+++ b/lalr1_lib/src/grammar.rs
@@ -52,20 +52,28 @@ impl Specification {
         if !spec.symbol_table.error_non_terminal().is_unused() {
             spec.productions.push(Production::new(symbol, tail));
         }
-        spec.symbol_table
-            .start_non_terminal()
-            .set_firsts_data(&spec.productions);
-        spec.symbol_table
-            .error_non_terminal()
-            .set_firsts_data(&spec.productions);
-        for non_terminal in spec.symbol_table.non_terminals() {
-            //if non_terminal.firsts_data_is_none() {
-            non_terminal.set_firsts_data(&spec.productions)
-            //}
-        }
+        spec.set_firsts_data();
         Ok(spec)
     }
 
+    fn set_firsts_data(&self) {
+        let mut changed = true;
+        while changed {
+            changed = self
+                .symbol_table
+                .error_non_terminal()
+                .update_firsts_data(&self.productions);
+            for non_terminal in self.symbol_table.non_terminals() {
+                changed = non_terminal.update_firsts_data(&self.productions) || changed;
+            }
+            changed = self
+                .symbol_table
+                .start_non_terminal()
+                .update_firsts_data(&self.productions)
+                || changed;
+        }
+    }
+
     pub fn is_allowable_name(name: &str) -> bool {
         !(name.starts_with("aa") || name.starts_with("AA"))
     }
diff --git a/lalr1_lib/src/symbol/non_terminal.rs b/lalr1_lib/src/symbol/non_terminal.rs
index b6b8b0c..a701a3d 100644
--- a/lalr1_lib/src/symbol/non_terminal.rs
+++ b/lalr1_lib/src/symbol/non_terminal.rs
@@ -180,75 +180,61 @@ impl NonTerminal {
         }
     }
 
-    fn firsts_data_is_set(&self) -> bool {
+    /// Recompute the firsts data from that of the non terminals on the right hand
+    /// sides (unset ones count as empty) and report whether it has changed.
+    /// The final values are reached when no non terminal's data changes any more.
+    pub fn update_firsts_data(&self, productions: &[Production]) -> bool {
         match self {
             NonTerminal::UserDefined(non_terminal_data)
             | NonTerminal::Error(non_terminal_data)
             | NonTerminal::Start(non_terminal_data) => {
-                non_terminal_data.firsts_data.borrow().is_some()
-            }
-        }
-    }
-
-    pub fn set_firsts_data(&self, productions: &[Production]) {
-        match self {
-            NonTerminal::UserDefined(non_terminal_data)
-            | NonTerminal::Error(non_terminal_data)
-            | NonTerminal::Start(non_terminal_data) => {
-                if non_terminal_data.firsts_data.borrow().is_some() {
-                    return;
-                }
-                let relevant_productions: Vec<Production> = productions
-                    .iter()
-                    .filter(|x| x.left_hand_side() == self)
-                    .cloned()
-                    .collect();
-                let mut transparent = relevant_productions.iter().any(|x| x.is_empty());
                 let mut token_set = TokenSet::new();
-                let mut transparency_changed = true;
-                while transparency_changed {
-                    transparency_changed = false;
-                    for production in relevant_productions.iter() {
-                        let mut transparent_production = true;
-                        for rhs_symbol in production.right_hand_side_symbols() {
-                            match rhs_symbol {
-                                Symbol::NonTerminal(non_terminal) => {
-                                    if non_terminal == self {
-                                        if transparent {
-                                            continue;
-                                        } else {
-                                            transparent_production = false;
-                                            break;
-                                        }
-                                    }
-                                    if !non_terminal.firsts_data_is_set() {
-                                        non_terminal.set_firsts_data(productions);
-                                    }
-                                    let firsts_data = non_terminal.firsts_data();
-                                    token_set |= &firsts_data.token_set;
-                                    if !firsts_data.transparent {
-                                        transparent_production = false;
-                                        break;
-                                    }
-                                }
-                                Symbol::Terminal(token) => {
-                                    token_set.insert(token);
-                                    transparent_production = false;
-                                    break;
-                                }
+                let mut transparent = false;
+                for production in productions.iter().filter(|x| x.left_hand_side() == self) {
+                    let mut transparent_production = true;
+                    for rhs_symbol in production.right_hand_side_symbols() {
+                        match rhs_symbol {
+                            Symbol::NonTerminal(non_terminal) => {
+                                let firsts_data = non_terminal.current_firsts_data();
+                                token_set |= &firsts_data.token_set;
+                                transparent_production = firsts_data.transparent;
+                            }
+                            Symbol::Terminal(token) => {
+                                token_set.insert(token);
+                                transparent_production = false;
                             }
                         }
-                        if transparent_production {
-                            transparency_changed = !transparent;
-                            transparent = true;
+                        if !transparent_production {
+                            break;
                         }
                     }
+                    transparent = transparent || transparent_production;
                 }
-                *non_terminal_data.firsts_data.borrow_mut() = Some(FirstsData {
+                let mut firsts_data = non_terminal_data.firsts_data.borrow_mut();
+                let changed = match firsts_data.as_ref() {
+                    Some(old) => {
+                        old.transparent != transparent || old.token_set.len() != token_set.len()
+                    }
+                    None => true,
+                };
+                *firsts_data = Some(FirstsData {
                     token_set,
                     transparent,
                 });
+                changed
             }
         }
     }
+
+    fn current_firsts_data(&self) -> FirstsData {
+        match self {
+            NonTerminal::UserDefined(non_terminal_data)
+            | NonTerminal::Error(non_terminal_data)
+            | NonTerminal::Start(non_terminal_data) => non_terminal_data
+                .firsts_data
+                .borrow()
+                .clone()
+                .unwrap_or_default(),
+        }
+    }
 }
-- 
2.43.0


From 6980ac5b6fea47720ea9cdce8e30d67dff2838a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:49 +0000
Subject: [PATCH 09/30] fix: propagate look-ahead sets to the non kernel items
 of existing states

Merging only the kernel items left the look-ahead sets of non kernel items
(and of what is reached from them) incomplete when a state was met again.
---
 alalr1_lib/src/state.rs | 2 +-
 lalr1_lib/src/state.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/alalr1_lib/src/state.rs b/alalr1_lib/src/state.rs
index 8f230af..cb53d72 100644
--- a/alalr1_lib/src/state.rs
+++ b/alalr1_lib/src/state.rs
@@ -101,7 +101,7 @@ impl ParserState {
 
     pub fn merge_lookahead_sets(&self, item_set: &GrammarItemSet) {
         let mut additions = 0;
-        for (key, other_look_ahead_set) in item_set.iter().filter(|(k, _)| k.is_kernel_item()) {
+        for (key, other_look_ahead_set) in item_set.iter() {
             if let Some(look_ahead_set) = self.0.grammar_items.borrow_mut().get_mut(key) {
                 let current_len = look_ahead_set.len();
                 *look_ahead_set |= other_look_ahead_set;
diff --git a/lalr1_lib/src/state.rs b/lalr1_lib/src/state.rs
index 88e6d69..8536e07 100644
--- a/lalr1_lib/src/state.rs
+++ b/lalr1_lib/src/state.rs
@@ -101,7 +101,7 @@ impl ParserState {
 
     pub fn merge_lookahead_sets(&self, item_set: &GrammarItemSet) {
         let mut additions = 0;
-        for (key, other_look_ahead_set) in item_set.iter().filter(|(k, _)| k.is_kernel_item()) {
+        for (key, other_look_ahead_set) in item_set.iter() {
             if let Some(look_ahead_set) = self.0.grammar_items.borrow_mut().get_mut(key) {
                 let current_len = look_ahead_set.len();
                 *look_ahead_set |= other_look_ahead_set;
-- 
2.43.0


From c32b0a441e33f969ea97d29b2d1ec435784c7f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:01 +0000
Subject: [PATCH 10/30] fix: number productions per specification

With a process wide counter only the first specification processed had a
production 0, so later parsers never accepted anything.
---
 alalr1_lib/src/grammar.rs    |  8 +++++---
 alalr1_lib/src/production.rs | 11 +++--------
 lalr1_lib/src/grammar.rs     |  8 +++++---
 lalr1_lib/src/production.rs  | 11 +++--------
 4 files changed, 16 insertions(+), 22 deletions(-)

diff --git a/alalr1_lib/src/grammar.rs b/alalr1_lib/src/grammar.rs
index 098b8bd..f035cbf 100644
--- a/alalr1_lib/src/grammar.rs
+++ b/alalr1_lib/src/grammar.rs
@@ -54,7 +54,8 @@ impl Specification {
         let symbol = spec.symbol_table.error_non_terminal.clone();
         let tail = ProductionTail::default();
         if !spec.symbol_table.error_non_terminal().is_unused() {
-            spec.productions.push(Production::new(symbol, tail));
+            let ident = spec.productions.len();
+            spec.productions.push(Production::new(ident, symbol, tail));
         }
         spec.set_firsts_data();
         Ok(spec)
@@ -104,11 +105,12 @@ impl Specification {
             left_hand_side.add_used_at(&location);
             let start_symbol = self.symbol_table.start_non_terminal_used_at(&location);
             let start_tail = ProductionTail::new(&[left_hand_side.into()], None, None, None);
-            let start_production = Production::new(start_symbol, start_tail);
+            let start_production = Production::new(0, start_symbol, start_tail);
             self.productions.push(start_production);
         }
+        let ident = self.productions.len();
         self.productions
-            .push(Production::new(left_hand_side.clone(), tail.clone()));
+            .push(Production::new(ident, left_hand_side.clone(), tail.clone()));
     }
 
     fn closure(&self, mut closure_set: GrammarItemSet) -> GrammarItemSet {
diff --git a/alalr1_lib/src/production.rs b/alalr1_lib/src/production.rs
index 6ceb740..8dae189 100644
--- a/alalr1_lib/src/production.rs
+++ b/alalr1_lib/src/production.rs
@@ -14,7 +14,6 @@ use std::iter::FromIterator;
 use std::ops::Index;
 use std::rc::Rc;
 use std::str::FromStr;
-use std::sync::atomic::{self, AtomicU32};
 
 #[derive(Debug, Default)]
 pub struct ProductionTailData {
@@ -71,11 +70,6 @@ fn rhs_associated_precedence(symbols: &[Symbol]) -> Option<(Associativity, u16)>
 pub struct ProductionId(u32);
 
 impl ProductionId {
-    fn new() -> Self {
-        static NEXT_ID: AtomicU32 = AtomicU32::new(0);
-        ProductionId(NEXT_ID.fetch_add(1, atomic::Ordering::Relaxed))
-    }
-
     pub fn is_zero(&self) -> bool {
         self.0 == 0
     }
@@ -108,9 +102,10 @@ lazy_static! {
 }
 
 impl Production {
-    pub fn new(left_hand_side: NonTerminal, tail: ProductionTail) -> Self {
+    /// `ident` is the production's position in its specification
+    pub fn new(ident: usize, left_hand_side: NonTerminal, tail: ProductionTail) -> Self {
         Self(Rc::new(ProductionData {
-            ident: ProductionId::new(),
+            ident: ProductionId(ident as u32),
             left_hand_side,
             tail,
         }))
diff --git a/lalr1_lib/src/grammar.rs b/lalr1_lib/src/grammar.rs
index a9b0438..b2fe264 100644
--- a/lalr1_lib/src/grammar.rs
+++ b/lalr1_lib/src/grammar.rs
@@ -50,7 +50,8 @@ impl Specification {
         let symbol = spec.symbol_table.error_non_terminal.clone();
         let tail = ProductionTail::default();
         if !spec.symbol_table.error_non_terminal().is_unused() {
-            spec.productions.push(Production::new(symbol, tail));
+            let ident = spec.productions.len();
+            spec.productions.push(Production::new(ident, symbol, tail));
         }
         spec.set_firsts_data();
         Ok(spec)
@@ -100,11 +101,12 @@ impl Specification {
             left_hand_side.add_used_at(&location);
             let start_symbol = self.symbol_table.start_non_terminal_used_at(&location);
             let start_tail = ProductionTail::new(&[left_hand_side.into()], None, None);
-            let start_production = Production::new(start_symbol, start_tail);
+            let start_production = Production::new(0, start_symbol, start_tail);
             self.productions.push(start_production);
         }
+        let ident = self.productions.len();
         self.productions
-            .push(Production::new(left_hand_side.clone(), tail.clone()));
+            .push(Production::new(ident, left_hand_side.clone(), tail.clone()));
     }
 
     fn closure(&self, mut closure_set: GrammarItemSet) -> GrammarItemSet {
diff --git a/lalr1_lib/src/production.rs b/lalr1_lib/src/production.rs
index fc7deb6..5437aab 100644
--- a/lalr1_lib/src/production.rs
+++ b/lalr1_lib/src/production.rs
@@ -14,7 +14,6 @@ use std::iter::FromIterator;
 use std::ops::Index;
 use std::rc::Rc;
 use std::str::FromStr;
-use std::sync::atomic::{self, AtomicU32};
 
 #[derive(Debug, Default)]
 pub struct ProductionTailData {
@@ -67,11 +66,6 @@ fn rhs_associated_precedence(symbols: &[Symbol]) -> Option<(Associativity, u16)>
 pub struct ProductionId(u32);
 
 impl ProductionId {
-    fn new() -> Self {
-        static NEXT_ID: AtomicU32 = AtomicU32::new(0);
-        ProductionId(NEXT_ID.fetch_add(1, atomic::Ordering::Relaxed))
-    }
-
     pub fn is_zero(&self) -> bool {
         self.0 == 0
     }
@@ -104,9 +98,10 @@ lazy_static! {
 }
 
 impl Production {
-    pub fn new(left_hand_side: NonTerminal, tail: ProductionTail) -> Self {
+    /// `ident` is the production's position in its specification
+    pub fn new(ident: usize, left_hand_side: NonTerminal, tail: ProductionTail) -> Self {
         Self(Rc::new(ProductionData {
-            ident: ProductionId::new(),
+            ident: ProductionId(ident as u32),
             left_hand_side,
             tail,
         }))
-- 
2.43.0


From 7e5a8467ff064e6afdf158e5139ff77693be9035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:19 +0000
Subject: [PATCH 11/30] fix: right associativity resolves a shift/reduce
 conflict

At equal precedence %right chose to shift but the conflict was still counted
as unresolved.
---
 alalr1_lib/src/state.rs | 4 +++-
 lalr1_lib/src/state.rs  | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/alalr1_lib/src/state.rs b/alalr1_lib/src/state.rs
index cb53d72..becd42c 100644
--- a/alalr1_lib/src/state.rs
+++ b/alalr1_lib/src/state.rs
@@ -179,7 +179,9 @@ impl ParserState {
                     .remove(shift_symbol);
             } else if reducible_item.associativity() == Associativity::Left {
                 shift_list.remove(shift_symbol);
-            } else if reducible_item.has_error_recovery_tail() {
+            } else if reducible_item.associativity() == Associativity::Right
+                || reducible_item.has_error_recovery_tail()
+            {
                 grammar_items
                     .get_mut(reducible_item)
                     .unwrap()
diff --git a/lalr1_lib/src/state.rs b/lalr1_lib/src/state.rs
index 8536e07..943b057 100644
--- a/lalr1_lib/src/state.rs
+++ b/lalr1_lib/src/state.rs
@@ -179,7 +179,9 @@ impl ParserState {
                     .remove(shift_symbol);
             } else if reducible_item.associativity() == Associativity::Left {
                 shift_list.remove(shift_symbol);
-            } else if reducible_item.has_error_recovery_tail() {
+            } else if reducible_item.associativity() == Associativity::Right
+                || reducible_item.has_error_recovery_tail()
+            {
                 grammar_items
                     .get_mut(reducible_item)
                     .unwrap()
-- 
2.43.0


From 969f0185a40c972270d66287221863e89023b643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:39 +0000
Subject: [PATCH 12/30] fix: generate code for predicates without an
 unconditional alternative

A production with a predicate and no competitor hit an assertion, and a chain
of predicates without a final unconditional production did not compile.
---
 alalr1_lib/src/state.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/alalr1_lib/src/state.rs b/alalr1_lib/src/state.rs
index becd42c..377e45b 100644
--- a/alalr1_lib/src/state.rs
+++ b/alalr1_lib/src/state.rs
@@ -292,10 +292,10 @@ impl ParserState {
             ))?;
         }
         for (productions, look_ahead_set) in reductions.reductions() {
-            if productions.len() == 1 {
-                // NB this is clumsy but first() for OrderedSet is only experimental
-                let production = productions.iter().next().expect("len() == 1");
-                debug_assert!(!production.has_predicate());
+            // NB this is clumsy but first() for OrderedSet is only experimental
+            let production = productions.iter().next().expect("len() > 0");
+            if !production.has_predicate() {
+                debug_assert!(productions.len() == 1);
                 wtr.write_fmt(format_args!("{indent}    // {production}\n"))?;
                 if production.is_start_production() {
                     wtr.write_fmt(format_args!(
@@ -344,6 +344,10 @@ impl ParserState {
                         ))?;
                     }
                 }
+                if productions.iter().all(|x| x.has_predicate()) {
+                    wtr.write_fmt(format_args!("{indent}        }} else {{\n"))?;
+                    wtr.write_fmt(format_args!("{indent}            Action::SyntaxError\n"))?;
+                }
                 wtr.write_fmt(format_args!("{indent}        }}\n"))?;
                 wtr.write_fmt(format_args!("{indent}    }}\n"))?;
             }
-- 
2.43.0


From 29016a372541c3796c9d037a1c43c1da6f5b2ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:54 +0000
Subject: [PATCH 13/30] fix: keep productions in comments on one line

A predicate spanning several lines left its tail outside the comment in the
generated code.
---
 alalr1_lib/src/production.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/alalr1_lib/src/production.rs b/alalr1_lib/src/production.rs
index 8dae189..39d0578 100644
--- a/alalr1_lib/src/production.rs
+++ b/alalr1_lib/src/production.rs
@@ -193,6 +193,11 @@ impl Production {
     }
 }
 
+// productions are displayed in comments which must not spill onto another line
+fn on_one_line(text: &str) -> String {
+    text.replace(['\n', '\r'], " ")
+}
+
 impl PartialEq for Production {
     fn eq(&self, other: &Self) -> bool {
         self.0.ident == other.0.ident
@@ -225,7 +230,7 @@ impl Display for Production {
         };
         string += &format!(" #({}, {})", self.associativity(), self.precedence());
         if let Some(predicate) = &self.0.tail.0.predicate {
-            string += &format!(" ?({predicate}?)");
+            string += &format!(" ?({}?)", on_one_line(predicate));
         };
         write!(f, "{string}")
     }
@@ -275,7 +280,7 @@ impl Display for GrammarItemKey {
             self.production.precedence()
         );
         if let Some(predicate) = &self.production.0.tail.0.predicate {
-            string += &format!(" ?({predicate}?)");
+            string += &format!(" ?({}?)", on_one_line(predicate));
         };
         write!(f, "{string}")
     }
-- 
2.43.0


From 411492ca750d013dad2c5ef7473d1654522ff976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:11 +0000
Subject: [PATCH 14/30] fix: do not panic on attribute numbers that are out of
 range

$0, numbers too large to parse and, in predicates, numbers beyond the length
of the production are left as they are.
---
 alalr1_lib/src/production.rs | 15 ++++++++++-----
 lalr1_lib/src/production.rs  |  5 ++++-
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/alalr1_lib/src/production.rs b/alalr1_lib/src/production.rs
index 39d0578..904dc86 100644
--- a/alalr1_lib/src/production.rs
+++ b/alalr1_lib/src/production.rs
@@ -152,10 +152,12 @@ impl Production {
             let rhs_len = self.0.tail.0.right_hand_side.len();
             let string = RHS_CRE
                 .replace_all(predicate, |caps: &regex::Captures| {
-                    format!(
-                        "aa_attributes.at_len_minus_n({})",
-                        rhs_len + 1 - usize::from_str(&caps[1]).unwrap()
-                    )
+                    match usize::from_str(&caps[1]) {
+                        Ok(n) if (1..=rhs_len).contains(&n) => {
+                            format!("aa_attributes.at_len_minus_n({})", rhs_len + 1 - n)
+                        }
+                        _ => caps[0].to_string(),
+                    }
                 })
                 .to_string();
             let string = string.replace("$?", "aa_tag");
@@ -172,7 +174,10 @@ impl Production {
             let string = string.replace("$INJECT", "aa_inject");
             let string = RHS_CRE
                 .replace_all(&string, |caps: &regex::Captures| {
-                    format!("aa_rhs[{}]", usize::from_str(&caps[1]).unwrap() - 1)
+                    match usize::from_str(&caps[1]) {
+                        Ok(n) if n > 0 => format!("aa_rhs[{}]", n - 1),
+                        _ => caps[0].to_string(),
+                    }
                 })
                 .to_string();
             Some(string)
diff --git a/lalr1_lib/src/production.rs b/lalr1_lib/src/production.rs
index 5437aab..584c69c 100644
--- a/lalr1_lib/src/production.rs
+++ b/lalr1_lib/src/production.rs
@@ -146,7 +146,10 @@ impl Production {
             let string = string.replace("$INJECT", "aa_inject");
             let string = RHS_CRE
                 .replace_all(&string, |caps: &regex::Captures| {
-                    format!("aa_rhs[{}]", usize::from_str(&caps[1]).unwrap() - 1)
+                    match usize::from_str(&caps[1]) {
+                        Ok(n) if n > 0 => format!("aa_rhs[{}]", n - 1),
+                        _ => caps[0].to_string(),
+                    }
                 })
                 .to_string();
             Some(string)
-- 
2.43.0


From 2c729426c3fcf682600544b7025eaf05939a6721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:28 +0000
Subject: [PATCH 15/30] fix: end the preamble's last line in the generated code

A preamble ending in a comment swallowed the first generated declaration.
---
 alalr1_lib/src/grammar.rs | 4 ++++
 lalr1_lib/src/grammar.rs  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/alalr1_lib/src/grammar.rs b/alalr1_lib/src/grammar.rs
index f035cbf..33ccfa7 100644
--- a/alalr1_lib/src/grammar.rs
+++ b/alalr1_lib/src/grammar.rs
@@ -157,6 +157,10 @@ impl Specification {
 
     pub fn write_preamble_text<W: Write>(&self, wtr: &mut W) -> io::Result<()> {
         wtr.write_all(self.preamble.as_bytes())?;
+        // the preamble may end in a comment
+        if !self.preamble.is_empty() && !self.preamble.ends_with('\n') {
+            wtr.write_all(b"\n")?;
+        }
         Ok(())
     }
 
diff --git a/lalr1_lib/src/grammar.rs b/lalr1_lib/src/grammar.rs
index b2fe264..363e9cf 100644
--- a/lalr1_lib/src/grammar.rs
+++ b/lalr1_lib/src/grammar.rs
@@ -153,6 +153,10 @@ impl Specification {
 
     pub fn write_preamble_text<W: Write>(&self, wtr: &mut W) -> io::Result<()> {
         wtr.write_all(self.preamble.as_bytes())?;
+        // the preamble may end in a comment
+        if !self.preamble.is_empty() && !self.preamble.ends_with('\n') {
+            wtr.write_all(b"\n")?;
+        }
         Ok(())
     }
 
-- 
2.43.0


From a0c43a61e5b810e16e9561bd6e488d6e51c828e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:48 +0000
Subject: [PATCH 16/30] fix: do not panic on refused tags and left hand sides

A tag listed twice or a non terminal with a token's name was reported and then
its missing attribute was used.
---
 alalr1_lib/src/attributes.rs |  4 ++++
 alalr1_lib/src/parser.alaps  | 21 +++++++++++++++------
 alalr1_lib/src/parser.rs     | 21 +++++++++++++++------
 lalr1_lib/src/attributes.rs  |  4 ++++
 lalr1_lib/src/parser.laps    | 21 +++++++++++++++------
 lalr1_lib/src/parser.rs      | 21 +++++++++++++++------
 6 files changed, 68 insertions(+), 24 deletions(-)

diff --git a/alalr1_lib/src/attributes.rs b/alalr1_lib/src/attributes.rs
index a2965df..1277b51 100644
--- a/alalr1_lib/src/attributes.rs
+++ b/alalr1_lib/src/attributes.rs
@@ -100,6 +100,10 @@ impl AttributeData {
         }
     }
 
+    pub fn is_left_hand_side(&self) -> bool {
+        matches!(self, AttributeData::LeftHandSide(_))
+    }
+
     pub fn left_hand_side(&self) -> &NonTerminal {
         match self {
             AttributeData::LeftHandSide(lhs) => lhs,
diff --git a/alalr1_lib/src/parser.alaps b/alalr1_lib/src/parser.alaps
index c95b08a..b6cb84b 100644
--- a/alalr1_lib/src/parser.alaps
+++ b/alalr1_lib/src/parser.alaps
@@ -275,7 +275,10 @@ Tag: Literal
                 };
                 match self.symbol_table.new_tag(name, location) {
                     Ok(tag) => $$ = AttributeData::TagOrToken(TagOrToken::from(&tag)),
-                    Err(err) => self.error(location, &err.to_string()),
+                    Err(err) => {
+                        self.error(location, &err.to_string());
+                        $$ = AttributeData::TagOrToken(TagOrToken::Invalid);
+                    }
                 }
             }
         !}
@@ -288,10 +291,13 @@ ProductionRules: OptionalInjection ProductionGroup OptionalInjection
 
 ProductionGroup: ProductionGroupHead ProductionTailList "."
         !{
-            let lhs = $1.left_hand_side();
-            let tails = $2.production_tail_list();
-            for tail in tails.iter() {
-                self.new_production(lhs, tail);
+            // there's no left hand side if its definition was refused
+            if $1.is_left_hand_side() {
+                let lhs = $1.left_hand_side();
+                let tails = $2.production_tail_list();
+                for tail in tails.iter() {
+                    self.new_production(lhs, tail);
+                }
             }
         !}
     .
@@ -303,7 +309,10 @@ ProductionGroupHead: Ident ":"
                 Ok(non_terminal) => {
                     $$ = AttributeData::LeftHandSide(non_terminal);
                 }
-                Err(err) => self.error(location, &err.to_string())
+                Err(err) => {
+                    self.error(location, &err.to_string());
+                    $$ = AttributeData::Default;
+                }
             }
         !}
     .
diff --git a/alalr1_lib/src/parser.rs b/alalr1_lib/src/parser.rs
index c6ce0f9..99981ce 100644
--- a/alalr1_lib/src/parser.rs
+++ b/alalr1_lib/src/parser.rs
@@ -1514,7 +1514,10 @@ impl alalr1::Parser<AATerminal, AANonTerminal, AttributeData> for Specification
                 };
                 match self.symbol_table.new_tag(name, location) {
                     Ok(tag) => aa_lhs = AttributeData::TagOrToken(TagOrToken::from(&tag)),
-                    Err(err) => self.error(location, &err.to_string()),
+                    Err(err) => {
+                        self.error(location, &err.to_string());
+                        aa_lhs = AttributeData::TagOrToken(TagOrToken::Invalid);
+                    }
                 }
             }
         
@@ -1522,10 +1525,13 @@ impl alalr1::Parser<AATerminal, AANonTerminal, AttributeData> for Specification
             42 => {
                 // ProductionGroup: ProductionGroupHead ProductionTailList "." #(NonAssoc, 0)
                 
-            let lhs = aa_rhs[0].left_hand_side();
-            let tails = aa_rhs[1].production_tail_list();
-            for tail in tails.iter() {
-                self.new_production(lhs, tail);
+            // there's no left hand side if its definition was refused
+            if aa_rhs[0].is_left_hand_side() {
+                let lhs = aa_rhs[0].left_hand_side();
+                let tails = aa_rhs[1].production_tail_list();
+                for tail in tails.iter() {
+                    self.new_production(lhs, tail);
+                }
             }
         
             }
@@ -1537,7 +1543,10 @@ impl alalr1::Parser<AATerminal, AANonTerminal, AttributeData> for Specification
                 Ok(non_terminal) => {
                     aa_lhs = AttributeData::LeftHandSide(non_terminal);
                 }
-                Err(err) => self.error(location, &err.to_string())
+                Err(err) => {
+                    self.error(location, &err.to_string());
+                    aa_lhs = AttributeData::Default;
+                }
             }
         
             }
diff --git a/lalr1_lib/src/attributes.rs b/lalr1_lib/src/attributes.rs
index c4e034d..705e031 100644
--- a/lalr1_lib/src/attributes.rs
+++ b/lalr1_lib/src/attributes.rs
@@ -95,6 +95,10 @@ impl AttributeData {
         }
     }
 
+    pub fn is_left_hand_side(&self) -> bool {
+        matches!(self, AttributeData::LeftHandSide(_))
+    }
+
     pub fn left_hand_side(&self) -> &NonTerminal {
         match self {
             AttributeData::LeftHandSide(lhs) => lhs,
diff --git a/lalr1_lib/src/parser.laps b/lalr1_lib/src/parser.laps
index 7a12830..977e510 100644
--- a/lalr1_lib/src/parser.laps
+++ b/lalr1_lib/src/parser.laps
@@ -279,7 +279,10 @@ Tag: Literal
                 };
                 match self.symbol_table.new_tag(name, location) {
                     Ok(tag) => $$ = AttributeData::TagOrToken(TagOrToken::from(&tag)),
-                    Err(err) => self.error(location, &err.to_string()),
+                    Err(err) => {
+                        self.error(location, &err.to_string());
+                        $$ = AttributeData::TagOrToken(TagOrToken::Invalid);
+                    }
                 }
             }
         !}
@@ -292,10 +295,13 @@ ProductionRules: OptionalInjection ProductionGroup OptionalInjection
 
 ProductionGroup: ProductionGroupHead ProductionTailList "."
         !{
-            let lhs = $1.left_hand_side();
-            let tails = $2.production_tail_list();
-            for tail in tails.iter() {
-                self.new_production(lhs, tail);
+            // there's no left hand side if its definition was refused
+            if $1.is_left_hand_side() {
+                let lhs = $1.left_hand_side();
+                let tails = $2.production_tail_list();
+                for tail in tails.iter() {
+                    self.new_production(lhs, tail);
+                }
             }
         !}
     .
@@ -307,7 +313,10 @@ ProductionGroupHead: Ident ":"
                 Ok(non_terminal) => {
                     $$ = AttributeData::LeftHandSide(non_terminal);
                 }
-                Err(err) => self.error(location, &err.to_string())
+                Err(err) => {
+                    self.error(location, &err.to_string());
+                    $$ = AttributeData::Default;
+                }
             }
         !}
     .
diff --git a/lalr1_lib/src/parser.rs b/lalr1_lib/src/parser.rs
index a61bd30..020421a 100644
--- a/lalr1_lib/src/parser.rs
+++ b/lalr1_lib/src/parser.rs
@@ -1435,7 +1435,10 @@ impl lalr1::Parser<AATerminal, AANonTerminal, AttributeData> for Specification {
                 };
                 match self.symbol_table.new_tag(name, location) {
                     Ok(tag) => aa_lhs = AttributeData::TagOrToken(TagOrToken::from(&tag)),
-                    Err(err) => self.error(location, &err.to_string()),
+                    Err(err) => {
+                        self.error(location, &err.to_string());
+                        aa_lhs = AttributeData::TagOrToken(TagOrToken::Invalid);
+                    }
                 }
             }
         
@@ -1443,10 +1446,13 @@ impl lalr1::Parser<AATerminal, AANonTerminal, AttributeData> for Specification {
             41 => {
                 // ProductionGroup: ProductionGroupHead ProductionTailList "." #(NonAssoc, 0)
                 
-            let lhs = aa_rhs[0].left_hand_side();
-            let tails = aa_rhs[1].production_tail_list();
-            for tail in tails.iter() {
-                self.new_production(lhs, tail);
+            // there's no left hand side if its definition was refused
+            if aa_rhs[0].is_left_hand_side() {
+                let lhs = aa_rhs[0].left_hand_side();
+                let tails = aa_rhs[1].production_tail_list();
+                for tail in tails.iter() {
+                    self.new_production(lhs, tail);
+                }
             }
         
             }
@@ -1458,7 +1464,10 @@ impl lalr1::Parser<AATerminal, AANonTerminal, AttributeData> for Specification {
                 Ok(non_terminal) => {
                     aa_lhs = AttributeData::LeftHandSide(non_terminal);
                 }
-                Err(err) => self.error(location, &err.to_string())
+                Err(err) => {
+                    self.error(location, &err.to_string());
+                    aa_lhs = AttributeData::Default;
+                }
             }
         
             }
-- 
2.43.0


From eb2fd558604df88c8846ce9e6b9cce9498bc1d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:13 +0000
Subject: [PATCH 17/30] fix: inject included text after the end of the include
 directive

Text is injected before the token waiting when the action is carried out, which
was the directive's own ".", so no specification with %inject was accepted.
---
 alalr1_lib/src/parser.alaps | 14 +++++++++-----
 alalr1_lib/src/parser.rs    |  8 +++++++-
 lalr1_lib/src/parser.laps   | 14 +++++++++-----
 lalr1_lib/src/parser.rs     |  8 +++++++-
 4 files changed, 32 insertions(+), 12 deletions(-)

diff --git a/alalr1_lib/src/parser.alaps b/alalr1_lib/src/parser.alaps
index b6cb84b..0e1f9e3 100644
--- a/alalr1_lib/src/parser.alaps
+++ b/alalr1_lib/src/parser.alaps
@@ -56,7 +56,15 @@ OptionalInjection: !{ // no injection so nothing to do !} | Injection .
 
 InjectionHead: "%inject" Literal
         !{
-            let (text, location) = $2.text_and_location();
+            $$ = $2.clone();
+        !}
+    .
+
+// NB Text is injected before the token that is waiting when the action is carried
+// out so the injection can't be done before the "." has been read.
+Injection: InjectionHead "."
+        !{
+            let (text, location) = $1.text_and_location();
             let file_path = text.trim_matches('"');
             match File::open(file_path) {
                 Ok(mut file) => {
@@ -74,10 +82,6 @@ InjectionHead: "%inject" Literal
         !}
     .
 
-// NB This (including the split) is needed to allow for "look ahead" mechanism.
-// It ensures injection occurs before any meaningful tokens are read
-Injection: InjectionHead "." .
-
 // Preamble
 Preamble:
         !{
diff --git a/alalr1_lib/src/parser.rs b/alalr1_lib/src/parser.rs
index 99981ce..57f721c 100644
--- a/alalr1_lib/src/parser.rs
+++ b/alalr1_lib/src/parser.rs
@@ -1314,7 +1314,13 @@ impl alalr1::Parser<AATerminal, AANonTerminal, AttributeData> for Specification
             4 => {
                 // InjectionHead: "%inject" Literal #(Right, 1)
                 
-            let (text, location) = aa_rhs[1].text_and_location();
+            aa_lhs = aa_rhs[1].clone();
+        
+            }
+            5 => {
+                // Injection: InjectionHead "." #(NonAssoc, 0)
+                
+            let (text, location) = aa_rhs[0].text_and_location();
             let file_path = text.trim_matches('"');
             match File::open(file_path) {
                 Ok(mut file) => {
diff --git a/lalr1_lib/src/parser.laps b/lalr1_lib/src/parser.laps
index 977e510..20eae89 100644
--- a/lalr1_lib/src/parser.laps
+++ b/lalr1_lib/src/parser.laps
@@ -57,7 +57,15 @@ OptionalInjection: !{ // no injection so nothing to do !} | Injection .
 
 InjectionHead: "%inject" Literal
         !{
-            let (text, location) = $2.text_and_location();
+            $$ = $2.clone();
+        !}
+    .
+
+// NB Text is injected before the token that is waiting when the action is carried
+// out so the injection can't be done before the "." has been read.
+Injection: InjectionHead "."
+        !{
+            let (text, location) = $1.text_and_location();
             let file_path = text.trim_matches('"');
             match File::open(file_path) {
                 Ok(mut file) => {
@@ -78,10 +86,6 @@ InjectionHead: "%inject" Literal
         !}
     .
 
-// NB This (including the split) is needed to allow for "look ahead" mechanism.
-// It ensures injection occurs before any meaningful tokens are read
-Injection: InjectionHead "." .
-
 // Preamble
 Preamble:
         !{
diff --git a/lalr1_lib/src/parser.rs b/lalr1_lib/src/parser.rs
index 020421a..a52156d 100644
--- a/lalr1_lib/src/parser.rs
+++ b/lalr1_lib/src/parser.rs
@@ -1230,7 +1230,13 @@ impl lalr1::Parser<AATerminal, AANonTerminal, AttributeData> for Specification {
             4 => {
                 // InjectionHead: "%inject" Literal #(Right, 1)
                 
-            let (text, location) = aa_rhs[1].text_and_location();
+            aa_lhs = aa_rhs[1].clone();
+        
+            }
+            5 => {
+                // Injection: InjectionHead "." #(NonAssoc, 0)
+                
+            let (text, location) = aa_rhs[0].text_and_location();
             let file_path = text.trim_matches('"');
             match File::open(file_path) {
                 Ok(mut file) => {
-- 
2.43.0


From 571a5b4005a197cbe33b79b6472463361adaec26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:49 +0000
Subject: [PATCH 18/30] fix: refuse recursive include directives

A file injecting itself, directly or through others, was read over and over
until memory ran out.
---
 alalr1_lib/src/grammar.rs   | 17 +++++++++++++++++
 alalr1_lib/src/parser.alaps |  5 +++++
 alalr1_lib/src/parser.rs    |  5 +++++
 lalr1_lib/src/grammar.rs    | 17 +++++++++++++++++
 lalr1_lib/src/parser.laps   |  5 +++++
 lalr1_lib/src/parser.rs     |  5 +++++
 6 files changed, 54 insertions(+)

diff --git a/alalr1_lib/src/grammar.rs b/alalr1_lib/src/grammar.rs
index 33ccfa7..4b7f46f 100644
--- a/alalr1_lib/src/grammar.rs
+++ b/alalr1_lib/src/grammar.rs
@@ -38,6 +38,8 @@ pub struct Specification {
     pub warning_count: u32,
     pub expected_rr_conflicts: u32,
     pub expected_sr_conflicts: u32,
+    // the label of the text that each injected file was last injected into
+    injected_into: BTreeMap<String, String>,
 }
 
 impl alalr1::ReportError<AATerminal> for Specification {}
@@ -93,6 +95,21 @@ impl Specification {
         self.warning_count += 1;
     }
 
+    /// Note that `file_path` is injected at `location` unless that is inside an
+    /// injection of the same file.
+    pub fn new_injection(&mut self, file_path: &str, location: &lexan::Location) -> bool {
+        let mut label = Some(location.label());
+        while let Some(text) = label {
+            if text == file_path {
+                return false;
+            }
+            label = self.injected_into.get(text);
+        }
+        self.injected_into
+            .insert(file_path.to_string(), location.label().clone());
+        true
+    }
+
     pub fn set_preamble(&mut self, preamble: &str) {
         self.preamble = preamble.to_string();
     }
diff --git a/alalr1_lib/src/parser.alaps b/alalr1_lib/src/parser.alaps
index 0e1f9e3..7e692d9 100644
--- a/alalr1_lib/src/parser.alaps
+++ b/alalr1_lib/src/parser.alaps
@@ -73,6 +73,11 @@ Injection: InjectionHead "."
                         self.error(location, &format!("Injecting: {err}"));
                     } else if text.is_empty() {
                         self.error(location, &format!("Injected file \"{file_path}\" is empty."));
+                    } else if !self.new_injection(file_path, location) {
+                        self.error(
+                            location,
+                            &format!("Injected file \"{file_path}\" injects itself.")
+                        );
                     } else {
                         $INJECT(text, file_path.to_string());
                     }
diff --git a/alalr1_lib/src/parser.rs b/alalr1_lib/src/parser.rs
index 57f721c..8afb475 100644
--- a/alalr1_lib/src/parser.rs
+++ b/alalr1_lib/src/parser.rs
@@ -1329,6 +1329,11 @@ impl alalr1::Parser<AATerminal, AANonTerminal, AttributeData> for Specification
                         self.error(location, &format!("Injecting: {err}"));
                     } else if text.is_empty() {
                         self.error(location, &format!("Injected file \"{file_path}\" is empty."));
+                    } else if !self.new_injection(file_path, location) {
+                        self.error(
+                            location,
+                            &format!("Injected file \"{file_path}\" injects itself.")
+                        );
                     } else {
                         aa_inject(text, file_path.to_string());
                     }
diff --git a/lalr1_lib/src/grammar.rs b/lalr1_lib/src/grammar.rs
index 363e9cf..0c1acda 100644
--- a/lalr1_lib/src/grammar.rs
+++ b/lalr1_lib/src/grammar.rs
@@ -34,6 +34,8 @@ pub struct Specification {
     pub warning_count: u32,
     pub expected_rr_conflicts: u32,
     pub expected_sr_conflicts: u32,
+    // the label of the text that each injected file was last injected into
+    injected_into: BTreeMap<String, String>,
 }
 
 impl lalr1::ReportError<AATerminal> for Specification {}
@@ -89,6 +91,21 @@ impl Specification {
         self.warning_count += 1;
     }
 
+    /// Note that `file_path` is injected at `location` unless that is inside an
+    /// injection of the same file.
+    pub fn new_injection(&mut self, file_path: &str, location: &lexan::Location) -> bool {
+        let mut label = Some(location.label());
+        while let Some(text) = label {
+            if text == file_path {
+                return false;
+            }
+            label = self.injected_into.get(text);
+        }
+        self.injected_into
+            .insert(file_path.to_string(), location.label().clone());
+        true
+    }
+
     pub fn set_preamble(&mut self, preamble: &str) {
         self.preamble = preamble.to_string();
     }
diff --git a/lalr1_lib/src/parser.laps b/lalr1_lib/src/parser.laps
index 20eae89..f6a3513 100644
--- a/lalr1_lib/src/parser.laps
+++ b/lalr1_lib/src/parser.laps
@@ -77,6 +77,11 @@ Injection: InjectionHead "."
                             location,
                             &format!("Injected file \"{file_path}\" is empty.")
                         );
+                    } else if !self.new_injection(file_path, location) {
+                        self.error(
+                            location,
+                            &format!("Injected file \"{file_path}\" injects itself.")
+                        );
                     } else {
                         $INJECT(text, file_path.to_string());
                     }
diff --git a/lalr1_lib/src/parser.rs b/lalr1_lib/src/parser.rs
index a52156d..0c41c15 100644
--- a/lalr1_lib/src/parser.rs
+++ b/lalr1_lib/src/parser.rs
@@ -1248,6 +1248,11 @@ impl lalr1::Parser<AATerminal, AANonTerminal, AttributeData> for Specification {
                             location,
                             &format!("Injected file \"{file_path}\" is empty.")
                         );
+                    } else if !self.new_injection(file_path, location) {
+                        self.error(
+                            location,
+                            &format!("Injected file \"{file_path}\" injects itself.")
+                        );
                     } else {
                         aa_inject(text, file_path.to_string());
                     }
-- 
2.43.0


From 92c5461201922894694ca05dc85f2015e040c43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:42 +0000
Subject: [PATCH 19/30] fix: escape braces in the displayed form of literal
 tokens

---
 alalr1_lib/src/grammar.rs | 4 +++-
 lalr1_lib/src/grammar.rs  | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/alalr1_lib/src/grammar.rs b/alalr1_lib/src/grammar.rs
index 4b7f46f..5920a0e 100644
--- a/alalr1_lib/src/grammar.rs
+++ b/alalr1_lib/src/grammar.rs
@@ -460,7 +460,9 @@ impl Grammar {
                 Token::Literal(token_data) => {
                     wtr.write_fmt(format_args!(
                         "{} => write!(f, r###\"{}\"###),\n",
-                        token_data.name, token_data.text
+                        token_data.name,
+                        // it's used as a format string
+                        token_data.text.replace('{', "{{").replace('}', "}}")
                     ))?;
                 }
                 Token::Regex(token_data) => {
diff --git a/lalr1_lib/src/grammar.rs b/lalr1_lib/src/grammar.rs
index 0c1acda..a2410cd 100644
--- a/lalr1_lib/src/grammar.rs
+++ b/lalr1_lib/src/grammar.rs
@@ -456,7 +456,9 @@ impl Grammar {
                 Token::Literal(token_data) => {
                     wtr.write_fmt(format_args!(
                         "{} => write!(f, r###\"{}\"###),\n",
-                        token_data.name, token_data.text
+                        token_data.name,
+                        // it's used as a format string
+                        token_data.text.replace('{', "{{").replace('}', "}}")
                     ))?;
                 }
                 Token::Regex(token_data) => {
-- 
2.43.0


From 82ee9c00dfdb858a845a09805304fc6f8f16b36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:25 +0000
Subject: [PATCH 20/30] fix: end raw strings for patterns with quotes and
 number signs properly

---
 alalr1_lib/src/grammar.rs | 23 ++++++++++++++++-------
 lalr1_lib/src/grammar.rs  | 23 ++++++++++++++++-------
 2 files changed, 32 insertions(+), 14 deletions(-)

diff --git a/alalr1_lib/src/grammar.rs b/alalr1_lib/src/grammar.rs
index 5920a0e..16fc832 100644
--- a/alalr1_lib/src/grammar.rs
+++ b/alalr1_lib/src/grammar.rs
@@ -27,6 +27,15 @@ pub fn report_warning(location: &lexan::Location, what: &str) {
     writeln!(stderr(), "{location}: Warning: {what}.").expect("what?");
 }
 
+/// A raw string literal with enough number signs for `text` not to end it
+fn raw_string(text: &str) -> String {
+    let mut signs = "###".to_string();
+    while text.contains(&format!("\"{signs}")) {
+        signs.push('#');
+    }
+    format!("r{signs}\"{text}\"{signs}")
+}
+
 #[derive(Debug, Default)]
 pub struct Specification {
     pub symbol_table: SymbolTable,
@@ -459,10 +468,10 @@ impl Grammar {
             match token {
                 Token::Literal(token_data) => {
                     wtr.write_fmt(format_args!(
-                        "{} => write!(f, r###\"{}\"###),\n",
+                        "{} => write!(f, {}),\n",
                         token_data.name,
                         // it's used as a format string
-                        token_data.text.replace('{', "{{").replace('}', "}}")
+                        raw_string(&token_data.text.replace('{', "{{").replace('}', "}}"))
                     ))?;
                 }
                 Token::Regex(token_data) => {
@@ -519,9 +528,9 @@ impl Grammar {
         for token in self.specification.symbol_table.literal_tokens() {
             wtr.write_all(b"                ")?;
             wtr.write_fmt(format_args!(
-                "({}, r###{}###),\n",
+                "({}, {}),\n",
                 token.name(),
-                token.text()
+                raw_string(&token.text()[1..token.text().len() - 1])
             ))?;
         }
         wtr.write_all(b"            ],\n")?;
@@ -529,16 +538,16 @@ impl Grammar {
         for token in self.specification.symbol_table.regex_tokens() {
             wtr.write_all(b"                ")?;
             wtr.write_fmt(format_args!(
-                "({}, r###\"{}\"###),\n",
+                "({}, {}),\n",
                 token.name(),
-                token.text()
+                raw_string(token.text())
             ))?;
         }
         wtr.write_all(b"            ],\n")?;
         wtr.write_all(b"            &[\n")?;
         for skip_rule in self.specification.symbol_table.skip_rules() {
             wtr.write_all(b"                ")?;
-            wtr.write_fmt(format_args!("r###\"{skip_rule}\"###,\n"))?;
+            wtr.write_fmt(format_args!("{},\n", raw_string(skip_rule)))?;
         }
         wtr.write_all(b"            ],\n")?;
         wtr.write_fmt(format_args!("            {},\n", Token::End.name()))?;
diff --git a/lalr1_lib/src/grammar.rs b/lalr1_lib/src/grammar.rs
index a2410cd..02a8962 100644
--- a/lalr1_lib/src/grammar.rs
+++ b/lalr1_lib/src/grammar.rs
@@ -23,6 +23,15 @@ pub fn report_warning(location: &lexan::Location, what: &str) {
     writeln!(stderr(), "{location}: Warning: {what}.").expect("what?");
 }
 
+/// A raw string literal with enough number signs for `text` not to end it
+fn raw_string(text: &str) -> String {
+    let mut signs = "###".to_string();
+    while text.contains(&format!("\"{signs}")) {
+        signs.push('#');
+    }
+    format!("r{signs}\"{text}\"{signs}")
+}
+
 #[derive(Debug, Default)]
 pub struct Specification {
     pub symbol_table: SymbolTable,
@@ -455,10 +464,10 @@ impl Grammar {
             match token {
                 Token::Literal(token_data) => {
                     wtr.write_fmt(format_args!(
-                        "{} => write!(f, r###\"{}\"###),\n",
+                        "{} => write!(f, {}),\n",
                         token_data.name,
                         // it's used as a format string
-                        token_data.text.replace('{', "{{").replace('}', "}}")
+                        raw_string(&token_data.text.replace('{', "{{").replace('}', "}}"))
                     ))?;
                 }
                 Token::Regex(token_data) => {
@@ -515,9 +524,9 @@ impl Grammar {
         for token in self.specification.symbol_table.literal_tokens() {
             wtr.write_all(b"                ")?;
             wtr.write_fmt(format_args!(
-                "({}, r###{}###),\n",
+                "({}, {}),\n",
                 token.name(),
-                token.text()
+                raw_string(&token.text()[1..token.text().len() - 1])
             ))?;
         }
         wtr.write_all(b"            ],\n")?;
@@ -525,16 +534,16 @@ impl Grammar {
         for token in self.specification.symbol_table.regex_tokens() {
             wtr.write_all(b"                ")?;
             wtr.write_fmt(format_args!(
-                "({}, r###\"{}\"###),\n",
+                "({}, {}),\n",
                 token.name(),
-                token.text()
+                raw_string(token.text())
             ))?;
         }
         wtr.write_all(b"            ],\n")?;
         wtr.write_all(b"            &[\n")?;
         for skip_rule in self.specification.symbol_table.skip_rules() {
             wtr.write_all(b"                ")?;
-            wtr.write_fmt(format_args!("r###\"{skip_rule}\"###,\n"))?;
+            wtr.write_fmt(format_args!("{},\n", raw_string(skip_rule)))?;
         }
         wtr.write_all(b"            ],\n")?;
         wtr.write_fmt(format_args!("            {},\n", Token::End.name()))?;
-- 
2.43.0


From c85b4c7a1fdf35a61e934edc179280117c29aa4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:19 +0000
Subject: [PATCH 21/30] fix: close item sets also where nothing can follow

Where a non terminal that never derives any text is followed by others
the look ahead sets of the items after it are empty.  The closure then
added no productions, so that shifts were missing, conflicts were counted
wrongly and the generator panicked when two such states were merged.
---
 alalr1_lib/src/grammar.rs         | 36 +++++++++++++++----------------
 alalr1_lib/src/symbol/terminal.rs |  4 ++--
 lalr1_lib/src/grammar.rs          | 36 +++++++++++++++----------------
 lalr1_lib/src/symbol/terminal.rs  |  4 ++--
 4 files changed, 38 insertions(+), 42 deletions(-)

diff --git a/alalr1_lib/src/grammar.rs b/alalr1_lib/src/grammar.rs
index 16fc832..d890306 100644
--- a/alalr1_lib/src/grammar.rs
+++ b/alalr1_lib/src/grammar.rs
@@ -150,25 +150,23 @@ impl Specification {
                         Symbol::Terminal(_) => debug_assert!(!item_key.is_closable()),
                         Symbol::NonTerminal(prospective_lhs) => {
                             debug_assert!(item_key.is_closable());
-                            for look_ahead_symbol in look_ahead_set.iter() {
-                                let firsts = TokenSet::first_all_caps(
-                                    item_key.rhs_tail(),
-                                    look_ahead_symbol,
-                                );
-                                for production in self
-                                    .productions
-                                    .iter()
-                                    .filter(|x| x.left_hand_side() == prospective_lhs)
-                                {
-                                    let prospective_key = GrammarItemKey::from(production);
-                                    if let Some(set) = closure_set.get_mut(&prospective_key) {
-                                        let len = set.len();
-                                        *set |= &firsts;
-                                        additions_made = additions_made || set.len() > len;
-                                    } else {
-                                        closure_set.insert(prospective_key, firsts.clone());
-                                        additions_made = true;
-                                    }
+                            // NB: the look ahead set is empty where nothing can follow because
+                            // a non terminal before it never derives any text
+                            let firsts =
+                                TokenSet::first_all_caps(item_key.rhs_tail(), &look_ahead_set);
+                            for production in self
+                                .productions
+                                .iter()
+                                .filter(|x| x.left_hand_side() == prospective_lhs)
+                            {
+                                let prospective_key = GrammarItemKey::from(production);
+                                if let Some(set) = closure_set.get_mut(&prospective_key) {
+                                    let len = set.len();
+                                    *set |= &firsts;
+                                    additions_made = additions_made || set.len() > len;
+                                } else {
+                                    closure_set.insert(prospective_key, firsts.clone());
+                                    additions_made = true;
                                 }
                             }
                         }
diff --git a/alalr1_lib/src/symbol/terminal.rs b/alalr1_lib/src/symbol/terminal.rs
index 338c8c8..00f89f2 100644
--- a/alalr1_lib/src/symbol/terminal.rs
+++ b/alalr1_lib/src/symbol/terminal.rs
@@ -190,7 +190,7 @@ impl TokenSet {
         self.0.len()
     }
 
-    pub fn first_all_caps(symbol_string: &[Symbol], token: &Token) -> Self {
+    pub fn first_all_caps(symbol_string: &[Symbol], look_ahead_set: &TokenSet) -> Self {
         let mut token_set = TokenSet::new();
         for symbol in symbol_string.iter() {
             match symbol {
@@ -207,7 +207,7 @@ impl TokenSet {
                 }
             }
         }
-        token_set.insert(token);
+        token_set |= look_ahead_set;
         token_set
     }
 
diff --git a/lalr1_lib/src/grammar.rs b/lalr1_lib/src/grammar.rs
index 02a8962..b11cea7 100644
--- a/lalr1_lib/src/grammar.rs
+++ b/lalr1_lib/src/grammar.rs
@@ -146,25 +146,23 @@ impl Specification {
                         Symbol::Terminal(_) => debug_assert!(!item_key.is_closable()),
                         Symbol::NonTerminal(prospective_lhs) => {
                             debug_assert!(item_key.is_closable());
-                            for look_ahead_symbol in look_ahead_set.iter() {
-                                let firsts = TokenSet::first_all_caps(
-                                    item_key.rhs_tail(),
-                                    look_ahead_symbol,
-                                );
-                                for production in self
-                                    .productions
-                                    .iter()
-                                    .filter(|x| x.left_hand_side() == prospective_lhs)
-                                {
-                                    let prospective_key = GrammarItemKey::from(production);
-                                    if let Some(set) = closure_set.get_mut(&prospective_key) {
-                                        let len = set.len();
-                                        *set |= &firsts;
-                                        additions_made = additions_made || set.len() > len;
-                                    } else {
-                                        closure_set.insert(prospective_key, firsts.clone());
-                                        additions_made = true;
-                                    }
+                            // NB: the look ahead set is empty where nothing can follow because
+                            // a non terminal before it never derives any text
+                            let firsts =
+                                TokenSet::first_all_caps(item_key.rhs_tail(), &look_ahead_set);
+                            for production in self
+                                .productions
+                                .iter()
+                                .filter(|x| x.left_hand_side() == prospective_lhs)
+                            {
+                                let prospective_key = GrammarItemKey::from(production);
+                                if let Some(set) = closure_set.get_mut(&prospective_key) {
+                                    let len = set.len();
+                                    *set |= &firsts;
+                                    additions_made = additions_made || set.len() > len;
+                                } else {
+                                    closure_set.insert(prospective_key, firsts.clone());
+                                    additions_made = true;
                                 }
                             }
                         }
diff --git a/lalr1_lib/src/symbol/terminal.rs b/lalr1_lib/src/symbol/terminal.rs
index f5a6ad8..b3b5ce6 100644
--- a/lalr1_lib/src/symbol/terminal.rs
+++ b/lalr1_lib/src/symbol/terminal.rs
@@ -190,7 +190,7 @@ impl TokenSet {
         self.0.len()
     }
 
-    pub fn first_all_caps(symbol_string: &[Symbol], token: &Token) -> Self {
+    pub fn first_all_caps(symbol_string: &[Symbol], look_ahead_set: &TokenSet) -> Self {
         let mut token_set = TokenSet::new();
         for symbol in symbol_string.iter() {
             match symbol {
@@ -207,7 +207,7 @@ impl TokenSet {
                 }
             }
         }
-        token_set.insert(token);
+        token_set |= look_ahead_set;
         token_set
     }
 
-- 
2.43.0


From e6c190c91dd6552a148322f424564b6847c30a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:26 +0000
Subject: [PATCH 22/30] fix: let predicates end in a comment

The code following the predicate in the generated parser became part of
the comment.
---
 alalr1_lib/src/production.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/alalr1_lib/src/production.rs b/alalr1_lib/src/production.rs
index 904dc86..c428a6a 100644
--- a/alalr1_lib/src/production.rs
+++ b/alalr1_lib/src/production.rs
@@ -160,7 +160,11 @@ impl Production {
                     }
                 })
                 .to_string();
-            let string = string.replace("$?", "aa_tag");
+            let mut string = string.replace("$?", "aa_tag");
+            if string.contains("//") {
+                // what follows it must not become part of a comment
+                string.push('\n');
+            }
             Some(string)
         } else {
             None
-- 
2.43.0


From 3aebc426590a72664d5c889c92b5146c5daa8dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:42 +0000
Subject: [PATCH 23/30] fix: refuse token and skip patterns the lexical
 analyzer cannot hold

A skip rule or literal with the same pattern as another token, and an
empty literal, were accepted and made the generated parser panic when its
lexical analyzer was first used.
---
 alalr1_lib/src/symbol.rs | 25 +++++++++++++++++++++++++
 lalr1_lib/src/symbol.rs  | 25 +++++++++++++++++++++++++
 2 files changed, 50 insertions(+)

diff --git a/alalr1_lib/src/symbol.rs b/alalr1_lib/src/symbol.rs
index 1ebb75d..bd58777 100644
--- a/alalr1_lib/src/symbol.rs
+++ b/alalr1_lib/src/symbol.rs
@@ -71,6 +71,8 @@ pub enum Error {
     DuplicateTokenDefinition(Token),
     ConflictsWithToken(Token),
     DuplicateSkipRule(String),
+    SkipRuleConflictsWithToken(Token),
+    EmptyLiteral(Token),
 }
 
 impl fmt::Display for Error {
@@ -111,6 +113,17 @@ impl fmt::Display for Error {
             Error::DuplicateSkipRule(string) => {
                 write!(f, "Skip rule \"{string}\" already defined.",)
             }
+            Error::SkipRuleConflictsWithToken(token) => {
+                write!(
+                    f,
+                    "Skip rule has the same definition as token \"{}\" defined at {}",
+                    token.name(),
+                    token.defined_at(),
+                )
+            }
+            Error::EmptyLiteral(token) => {
+                write!(f, "Token \"{}\" has an empty definition", token.name())
+            }
         }
     }
 }
@@ -192,6 +205,10 @@ impl SymbolTable {
             Err(Error::DuplicateToken(other))
         } else if let Some(other) = self.literal_tokens.insert(text.to_string(), token.clone()) {
             Err(Error::DuplicateTokenDefinition(other))
+        } else if text == "\"\"" {
+            Err(Error::EmptyLiteral(token))
+        } else if let Some(other) = self.regex_tokens.get(&text[1..text.len() - 1]) {
+            Err(Error::DuplicateTokenDefinition(other.clone()))
         } else {
             Ok(token)
         }
@@ -208,6 +225,8 @@ impl SymbolTable {
             Err(Error::DuplicateToken(other))
         } else if let Some(other) = self.regex_tokens.insert(text.to_string(), token.clone()) {
             Err(Error::DuplicateTokenDefinition(other))
+        } else if let Some(other) = self.literal_tokens.get(&format!("\"{text}\"")) {
+            Err(Error::DuplicateTokenDefinition(other.clone()))
         } else {
             Ok(token)
         }
@@ -295,6 +314,12 @@ impl SymbolTable {
     pub fn add_skip_rule(&mut self, skip_rule: &String) -> Result<(), Error> {
         if self.skip_rules.contains(skip_rule) {
             Err(Error::DuplicateSkipRule(skip_rule.to_string()))
+        } else if let Some(token) = self
+            .regex_tokens
+            .get(skip_rule)
+            .or_else(|| self.literal_tokens.get(&format!("\"{skip_rule}\"")))
+        {
+            Err(Error::SkipRuleConflictsWithToken(token.clone()))
         } else {
             self.skip_rules.push(skip_rule.to_string());
             Ok(())
diff --git a/lalr1_lib/src/symbol.rs b/lalr1_lib/src/symbol.rs
index ed3d639..3899938 100644
--- a/lalr1_lib/src/symbol.rs
+++ b/lalr1_lib/src/symbol.rs
@@ -71,6 +71,8 @@ pub enum Error {
     DuplicateTokenDefinition(Token),
     ConflictsWithToken(Token),
     DuplicateSkipRule(String),
+    SkipRuleConflictsWithToken(Token),
+    EmptyLiteral(Token),
 }
 
 impl fmt::Display for Error {
@@ -111,6 +113,17 @@ impl fmt::Display for Error {
             Error::DuplicateSkipRule(string) => {
                 write!(f, "Skip rule \"{string}\" already defined.",)
             }
+            Error::SkipRuleConflictsWithToken(token) => {
+                write!(
+                    f,
+                    "Skip rule has the same definition as token \"{}\" defined at {}",
+                    token.name(),
+                    token.defined_at(),
+                )
+            }
+            Error::EmptyLiteral(token) => {
+                write!(f, "Token \"{}\" has an empty definition", token.name())
+            }
         }
     }
 }
@@ -192,6 +205,10 @@ impl SymbolTable {
             Err(Error::DuplicateToken(other))
         } else if let Some(other) = self.literal_tokens.insert(text.to_string(), token.clone()) {
             Err(Error::DuplicateTokenDefinition(other))
+        } else if text == "\"\"" {
+            Err(Error::EmptyLiteral(token))
+        } else if let Some(other) = self.regex_tokens.get(&text[1..text.len() - 1]) {
+            Err(Error::DuplicateTokenDefinition(other.clone()))
         } else {
             Ok(token)
         }
@@ -208,6 +225,8 @@ impl SymbolTable {
             Err(Error::DuplicateToken(other))
         } else if let Some(other) = self.regex_tokens.insert(text.to_string(), token.clone()) {
             Err(Error::DuplicateTokenDefinition(other))
+        } else if let Some(other) = self.literal_tokens.get(&format!("\"{text}\"")) {
+            Err(Error::DuplicateTokenDefinition(other.clone()))
         } else {
             Ok(token)
         }
@@ -295,6 +314,12 @@ impl SymbolTable {
     pub fn add_skip_rule(&mut self, skip_rule: &String) -> Result<(), Error> {
         if self.skip_rules.contains(skip_rule) {
             Err(Error::DuplicateSkipRule(skip_rule.to_string()))
+        } else if let Some(token) = self
+            .regex_tokens
+            .get(skip_rule)
+            .or_else(|| self.literal_tokens.get(&format!("\"{skip_rule}\"")))
+        {
+            Err(Error::SkipRuleConflictsWithToken(token.clone()))
         } else {
             self.skip_rules.push(skip_rule.to_string());
             Ok(())
-- 
2.43.0


From a3895c63013f417ea23725775955f84d4fe6ffc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:37 +0000
Subject: [PATCH 24/30] fix: replace only the last extension of file names

The parser for "a.b.laps" was written to "a.rs", and a path that does
not end in a file name made the commands panic.
---
 alalr1_gen/src/main.rs | 21 +++------------------
 lalr1_gen/src/main.rs  | 21 +++------------------
 2 files changed, 6 insertions(+), 36 deletions(-)

diff --git a/alalr1_gen/src/main.rs b/alalr1_gen/src/main.rs
index 1f8df60..9de0e9f 100644
--- a/alalr1_gen/src/main.rs
+++ b/alalr1_gen/src/main.rs
@@ -2,25 +2,10 @@
 use clap::crate_authors;
 use structopt::StructOpt;
 
-use std::{
-    convert::TryFrom,
-    fs,
-    io::prelude::*,
-    path::{Path, PathBuf},
-};
+use std::{convert::TryFrom, fs, io::prelude::*, path::PathBuf};
 
 use alalr1_lib::grammar;
 
-fn with_changed_extension(path: &Path, new_extension: &str) -> PathBuf {
-    let mut new_path = PathBuf::new();
-    if let Some(dir) = path.parent() {
-        new_path.push(dir);
-    };
-    new_path.push(path.file_stem().unwrap());
-    new_path.set_extension(new_extension);
-    new_path
-}
-
 #[derive(Debug, StructOpt)]
 #[structopt(
     name = "alalr1_gen",
@@ -50,7 +35,7 @@ fn main() {
     let output_path = if let Some(output_path) = cl_options.output {
         output_path
     } else {
-        with_changed_extension(&cl_options.specification, "rs")
+        cl_options.specification.with_extension("rs")
     };
     if output_path.exists() && !cl_options.force {
         eprintln!(
@@ -122,7 +107,7 @@ fn main() {
         std::process::exit(6);
     }
 
-    let description_file = with_changed_extension(&output_path, "states");
+    let description_file = output_path.with_extension("states");
     if let Err(err) = grammar.write_description(&description_file) {
         eprintln!(
             "{}: problems writing file: {:?}.",
diff --git a/lalr1_gen/src/main.rs b/lalr1_gen/src/main.rs
index 11a1d2b..f8e46e1 100644
--- a/lalr1_gen/src/main.rs
+++ b/lalr1_gen/src/main.rs
@@ -3,25 +3,10 @@
 use clap::crate_authors;
 use structopt::StructOpt;
 
-use std::{
-    convert::TryFrom,
-    fs,
-    io::prelude::*,
-    path::{Path, PathBuf},
-};
+use std::{convert::TryFrom, fs, io::prelude::*, path::PathBuf};
 
 use lalr1_lib::grammar;
 
-fn with_changed_extension(path: &Path, new_extension: &str) -> PathBuf {
-    let mut new_path = PathBuf::new();
-    if let Some(dir) = path.parent() {
-        new_path.push(dir);
-    };
-    new_path.push(path.file_stem().unwrap());
-    new_path.set_extension(new_extension);
-    new_path
-}
-
 #[derive(Debug, StructOpt)]
 #[structopt(
     name = "lalr1_gen",
@@ -51,7 +36,7 @@ fn main() {
     let output_path = if let Some(output_path) = cl_options.output {
         output_path
     } else {
-        with_changed_extension(&cl_options.specification, "rs")
+        cl_options.specification.with_extension("rs")
     };
     if output_path.exists() && !cl_options.force {
         eprintln!(
@@ -123,7 +108,7 @@ fn main() {
         std::process::exit(6);
     }
 
-    let description_file = with_changed_extension(&output_path, "states");
+    let description_file = output_path.with_extension("states");
     if let Err(err) = grammar.write_description(&description_file) {
         eprintln!(
             "{}: problems writing file: {:?}.",
-- 
2.43.0


From 38963b3dd9ec43bf5a1a0c42c623804d77d2647f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:41 +0000
Subject: [PATCH 25/30] fix: never overwrite the specification or the parser
 just written

---
 alalr1_gen/src/main.rs | 32 ++++++++++++++++++++++++++++++--
 lalr1_gen/src/main.rs  | 32 ++++++++++++++++++++++++++++++--
 2 files changed, 60 insertions(+), 4 deletions(-)

diff --git a/alalr1_gen/src/main.rs b/alalr1_gen/src/main.rs
index 9de0e9f..16c4c03 100644
--- a/alalr1_gen/src/main.rs
+++ b/alalr1_gen/src/main.rs
@@ -2,7 +2,12 @@
 use clap::crate_authors;
 use structopt::StructOpt;
 
-use std::{convert::TryFrom, fs, io::prelude::*, path::PathBuf};
+use std::{
+    convert::TryFrom,
+    fs,
+    io::prelude::*,
+    path::{Path, PathBuf},
+};
 
 use alalr1_lib::grammar;
 
@@ -30,6 +35,13 @@ struct CLOptions {
     specification: PathBuf,
 }
 
+fn is_same_file(path: &Path, other: &Path) -> bool {
+    match (path.canonicalize(), other.canonicalize()) {
+        (Ok(path), Ok(other)) => path == other,
+        _ => false,
+    }
+}
+
 fn main() {
     let cl_options = CLOptions::from_args();
     let output_path = if let Some(output_path) = cl_options.output {
@@ -37,6 +49,23 @@ fn main() {
     } else {
         cl_options.specification.with_extension("rs")
     };
+    let description_file = output_path.with_extension("states");
+    if is_same_file(&output_path, &cl_options.specification)
+        || is_same_file(&description_file, &cl_options.specification)
+    {
+        eprintln!(
+            "{}: specification file would be overwritten",
+            cl_options.specification.to_string_lossy()
+        );
+        std::process::exit(1);
+    }
+    if description_file == output_path {
+        eprintln!(
+            "{}: output file would be overwritten by the description of the states",
+            output_path.to_string_lossy()
+        );
+        std::process::exit(1);
+    }
     if output_path.exists() && !cl_options.force {
         eprintln!(
             "{}: output file already exists",
@@ -107,7 +136,6 @@ fn main() {
         std::process::exit(6);
     }
 
-    let description_file = output_path.with_extension("states");
     if let Err(err) = grammar.write_description(&description_file) {
         eprintln!(
             "{}: problems writing file: {:?}.",
diff --git a/lalr1_gen/src/main.rs b/lalr1_gen/src/main.rs
index f8e46e1..3bad0c7 100644
--- a/lalr1_gen/src/main.rs
+++ b/lalr1_gen/src/main.rs
@@ -3,7 +3,12 @@
 use clap::crate_authors;
 use structopt::StructOpt;
 
-use std::{convert::TryFrom, fs, io::prelude::*, path::PathBuf};
+use std::{
+    convert::TryFrom,
+    fs,
+    io::prelude::*,
+    path::{Path, PathBuf},
+};
 
 use lalr1_lib::grammar;
 
@@ -31,6 +36,13 @@ struct CLOptions {
     specification: PathBuf,
 }
 
+fn is_same_file(path: &Path, other: &Path) -> bool {
+    match (path.canonicalize(), other.canonicalize()) {
+        (Ok(path), Ok(other)) => path == other,
+        _ => false,
+    }
+}
+
 fn main() {
     let cl_options = CLOptions::from_args();
     let output_path = if let Some(output_path) = cl_options.output {
@@ -38,6 +50,23 @@ fn main() {
     } else {
         cl_options.specification.with_extension("rs")
     };
+    let description_file = output_path.with_extension("states");
+    if is_same_file(&output_path, &cl_options.specification)
+        || is_same_file(&description_file, &cl_options.specification)
+    {
+        eprintln!(
+            "{}: specification file would be overwritten",
+            cl_options.specification.to_string_lossy()
+        );
+        std::process::exit(1);
+    }
+    if description_file == output_path {
+        eprintln!(
+            "{}: output file would be overwritten by the description of the states",
+            output_path.to_string_lossy()
+        );
+        std::process::exit(1);
+    }
     if output_path.exists() && !cl_options.force {
         eprintln!(
             "{}: output file already exists",
@@ -108,7 +137,6 @@ fn main() {
         std::process::exit(6);
     }
 
-    let description_file = output_path.with_extension("states");
     if let Err(err) = grammar.write_description(&description_file) {
         eprintln!(
             "{}: problems writing file: {:?}.",
-- 
2.43.0


From 329f0b785518981c9bbb8307c0886abdf48931a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:19 +0000
Subject: [PATCH 26/30] fix: end the lines of shift/reduce conflicts in reports

---
 alalr1_lib/src/state.rs | 2 +-
 lalr1_lib/src/state.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/alalr1_lib/src/state.rs b/alalr1_lib/src/state.rs
index 377e45b..68925ea 100644
--- a/alalr1_lib/src/state.rs
+++ b/alalr1_lib/src/state.rs
@@ -442,7 +442,7 @@ impl ParserState {
                 string += &format!("    {shift_token}:\n");
                 string += &format!("      shift -> State<{}>\n", goto_state.ident());
                 string += &format!(
-                    "      reduce {}: {}",
+                    "      reduce {}: {}\n",
                     reducible_item.production(),
                     look_ahead_set
                 );
diff --git a/lalr1_lib/src/state.rs b/lalr1_lib/src/state.rs
index 943b057..97ee176 100644
--- a/lalr1_lib/src/state.rs
+++ b/lalr1_lib/src/state.rs
@@ -400,7 +400,7 @@ impl ParserState {
                 string += &format!("    {shift_token}:\n");
                 string += &format!("      shift -> State<{}>\n", goto_state.ident());
                 string += &format!(
-                    "      reduce {}: {}",
+                    "      reduce {}: {}\n",
                     reducible_item.production(),
                     look_ahead_set
                 );
-- 
2.43.0


From 172aa1b13fd4a4725e86f4897a4f5d01fa8c4583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:10 +0000
Subject: [PATCH 27/30] fix: accept output paths that are not UTF-8

---
 alalr1_gen/src/main.rs | 2 +-
 lalr1_gen/src/main.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/alalr1_gen/src/main.rs b/alalr1_gen/src/main.rs
index 16c4c03..f6bc365 100644
--- a/alalr1_gen/src/main.rs
+++ b/alalr1_gen/src/main.rs
@@ -28,7 +28,7 @@ struct CLOptions {
     #[structopt(long)]
     ignore_rr_conflicts: bool,
     /// Specify the path of the required output file (if different to the default).
-    #[structopt(short, long)]
+    #[structopt(short, long, parse(from_os_str))]
     output: Option<PathBuf>,
     /// The path of the file containing the grammar specification.
     #[structopt(parse(from_os_str))]
diff --git a/lalr1_gen/src/main.rs b/lalr1_gen/src/main.rs
index 3bad0c7..ee5fea8 100644
--- a/lalr1_gen/src/main.rs
+++ b/lalr1_gen/src/main.rs
@@ -29,7 +29,7 @@ struct CLOptions {
     #[structopt(long)]
     ignore_rr_conflicts: bool,
     /// Specify the path of the required output file (if different to the default).
-    #[structopt(short, long)]
+    #[structopt(short, long, parse(from_os_str))]
     output: Option<PathBuf>,
     /// The path of the file containing the grammar specification.
     #[structopt(parse(from_os_str))]
-- 
2.43.0


From e0abf958fa1d7cc392e8e0101245a27cd78edb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:53 +0000
Subject: [PATCH 28/30] fix: allow for more than 65535 precedence levels

---
 alalr1_lib/src/attributes.rs      |  4 ++--
 alalr1_lib/src/production.rs      | 10 +++++-----
 alalr1_lib/src/symbol.rs          |  2 +-
 alalr1_lib/src/symbol/tag.rs      |  6 +++---
 alalr1_lib/src/symbol/terminal.rs |  8 ++++----
 lalr1_lib/src/attributes.rs       |  4 ++--
 lalr1_lib/src/production.rs       | 10 +++++-----
 lalr1_lib/src/symbol.rs           |  2 +-
 lalr1_lib/src/symbol/tag.rs       |  6 +++---
 lalr1_lib/src/symbol/terminal.rs  |  8 ++++----
 10 files changed, 30 insertions(+), 30 deletions(-)

diff --git a/alalr1_lib/src/attributes.rs b/alalr1_lib/src/attributes.rs
index 1277b51..1a8db6d 100644
--- a/alalr1_lib/src/attributes.rs
+++ b/alalr1_lib/src/attributes.rs
@@ -27,7 +27,7 @@ pub enum AttributeData {
     ProductionTailList(Vec<ProductionTail>),
     Action(String),
     Predicate(String),
-    AssociativityAndPrecedence(Associativity, u16),
+    AssociativityAndPrecedence(Associativity, u32),
     #[default]
     Default,
 }
@@ -167,7 +167,7 @@ impl AttributeData {
         }
     }
 
-    pub fn associativity_and_precedence(&self) -> (Associativity, u16) {
+    pub fn associativity_and_precedence(&self) -> (Associativity, u32) {
         match self {
             AttributeData::AssociativityAndPrecedence(associativity, precedence) => {
                 (*associativity, *precedence)
diff --git a/alalr1_lib/src/production.rs b/alalr1_lib/src/production.rs
index c428a6a..8bc7d96 100644
--- a/alalr1_lib/src/production.rs
+++ b/alalr1_lib/src/production.rs
@@ -20,7 +20,7 @@ pub struct ProductionTailData {
     right_hand_side: Vec<Symbol>,
     predicate: Option<String>,
     associativity: Associativity,
-    precedence: u16,
+    precedence: u32,
     action: Option<String>,
 }
 
@@ -37,7 +37,7 @@ impl ProductionTail {
     pub fn new(
         right_hand_side: &[Symbol],
         o_predicate: Option<&str>,
-        associative_precedence: Option<(Associativity, u16)>,
+        associative_precedence: Option<(Associativity, u32)>,
         o_action: Option<&str>,
     ) -> Self {
         let predicate = o_predicate.map(|predicate| predicate.to_string());
@@ -57,7 +57,7 @@ impl ProductionTail {
     }
 }
 
-fn rhs_associated_precedence(symbols: &[Symbol]) -> Option<(Associativity, u16)> {
+fn rhs_associated_precedence(symbols: &[Symbol]) -> Option<(Associativity, u32)> {
     for symbol in symbols.iter() {
         if let Symbol::Terminal(token) = symbol {
             return Some(token.associativity_and_precedence());
@@ -139,7 +139,7 @@ impl Production {
         self.0.tail.0.associativity
     }
 
-    pub fn precedence(&self) -> u16 {
+    pub fn precedence(&self) -> u32 {
         self.0.tail.0.precedence
     }
 
@@ -354,7 +354,7 @@ impl GrammarItemKey {
         self.production.associativity()
     }
 
-    pub fn precedence(&self) -> u16 {
+    pub fn precedence(&self) -> u32 {
         self.production.precedence()
     }
 
diff --git a/alalr1_lib/src/symbol.rs b/alalr1_lib/src/symbol.rs
index bd58777..5c8be50 100644
--- a/alalr1_lib/src/symbol.rs
+++ b/alalr1_lib/src/symbol.rs
@@ -136,7 +136,7 @@ pub struct SymbolTable {
     regex_tokens: BTreeMap<String, Token>,
     non_terminals: BTreeMap<String, NonTerminal>,
     skip_rules: Vec<String>,
-    last_precedence: u16,
+    last_precedence: u32,
     start_non_terminal: NonTerminal,
     pub error_non_terminal: NonTerminal,
 }
diff --git a/alalr1_lib/src/symbol/tag.rs b/alalr1_lib/src/symbol/tag.rs
index 8fec117..b5dad40 100644
--- a/alalr1_lib/src/symbol/tag.rs
+++ b/alalr1_lib/src/symbol/tag.rs
@@ -11,7 +11,7 @@ pub struct TagData {
     defined_at: lexan::Location,
     used_at: RefCell<Vec<lexan::Location>>,
     associativity: Cell<Associativity>,
-    precedence: Cell<u16>,
+    precedence: Cell<u32>,
 }
 
 impl TagData {
@@ -50,7 +50,7 @@ impl Tag {
         self.0.associativity.get()
     }
 
-    pub fn precedence(&self) -> u16 {
+    pub fn precedence(&self) -> u32 {
         self.0.precedence.get()
     }
 
@@ -66,7 +66,7 @@ impl Tag {
         self.0.associativity.set(associativity)
     }
 
-    pub fn set_precedence(&self, precedence: u16) {
+    pub fn set_precedence(&self, precedence: u32) {
         self.0.precedence.set(precedence)
     }
 }
diff --git a/alalr1_lib/src/symbol/terminal.rs b/alalr1_lib/src/symbol/terminal.rs
index 00f89f2..a493533 100644
--- a/alalr1_lib/src/symbol/terminal.rs
+++ b/alalr1_lib/src/symbol/terminal.rs
@@ -17,7 +17,7 @@ pub struct TokenData {
     defined_at: lexan::Location,
     used_at: RefCell<Vec<lexan::Location>>,
     associativity: Cell<Associativity>,
-    precedence: Cell<u16>,
+    precedence: Cell<u32>,
 }
 
 impl TokenData {
@@ -115,7 +115,7 @@ impl Token {
         }
     }
 
-    pub fn precedence(&self) -> u16 {
+    pub fn precedence(&self) -> u32 {
         match self {
             Token::Literal(token_data) | Token::Regex(token_data) => token_data.precedence.get(),
             Token::End => 0,
@@ -131,7 +131,7 @@ impl Token {
         }
     }
 
-    pub fn associativity_and_precedence(&self) -> (Associativity, u16) {
+    pub fn associativity_and_precedence(&self) -> (Associativity, u32) {
         match self {
             Token::Literal(token_data) | Token::Regex(token_data) => {
                 (token_data.associativity.get(), token_data.precedence.get())
@@ -158,7 +158,7 @@ impl Token {
         }
     }
 
-    pub fn set_precedence(&self, precedence: u16) {
+    pub fn set_precedence(&self, precedence: u32) {
         debug_assert!(precedence > 0);
         match self {
             Token::Literal(token_data) | Token::Regex(token_data) => {
diff --git a/lalr1_lib/src/attributes.rs b/lalr1_lib/src/attributes.rs
index 705e031..6ac940b 100644
--- a/lalr1_lib/src/attributes.rs
+++ b/lalr1_lib/src/attributes.rs
@@ -22,7 +22,7 @@ pub enum AttributeData {
     ProductionTail(ProductionTail),
     ProductionTailList(Vec<ProductionTail>),
     Action(String),
-    AssociativityAndPrecedence(Associativity, u16),
+    AssociativityAndPrecedence(Associativity, u32),
     #[default]
     Default,
 }
@@ -155,7 +155,7 @@ impl AttributeData {
         }
     }
 
-    pub fn associativity_and_precedence(&self) -> (Associativity, u16) {
+    pub fn associativity_and_precedence(&self) -> (Associativity, u32) {
         match self {
             AttributeData::AssociativityAndPrecedence(associativity, precedence) => {
                 (*associativity, *precedence)
diff --git a/lalr1_lib/src/production.rs b/lalr1_lib/src/production.rs
index 584c69c..a280d63 100644
--- a/lalr1_lib/src/production.rs
+++ b/lalr1_lib/src/production.rs
@@ -19,7 +19,7 @@ use std::str::FromStr;
 pub struct ProductionTailData {
     right_hand_side: Vec<Symbol>,
     associativity: Associativity,
-    precedence: u16,
+    precedence: u32,
     action: Option<String>,
 }
 
@@ -35,7 +35,7 @@ impl Clone for ProductionTail {
 impl ProductionTail {
     pub fn new(
         right_hand_side: &[Symbol],
-        associative_precedence: Option<(Associativity, u16)>,
+        associative_precedence: Option<(Associativity, u32)>,
         o_action: Option<&str>,
     ) -> Self {
         let action = o_action.map(|action| action.to_string());
@@ -53,7 +53,7 @@ impl ProductionTail {
     }
 }
 
-fn rhs_associated_precedence(symbols: &[Symbol]) -> Option<(Associativity, u16)> {
+fn rhs_associated_precedence(symbols: &[Symbol]) -> Option<(Associativity, u32)> {
     for symbol in symbols.iter() {
         if let Symbol::Terminal(token) = symbol {
             return Some(token.associativity_and_precedence());
@@ -135,7 +135,7 @@ impl Production {
         self.0.tail.0.associativity
     }
 
-    pub fn precedence(&self) -> u16 {
+    pub fn precedence(&self) -> u32 {
         self.0.tail.0.precedence
     }
 
@@ -311,7 +311,7 @@ impl GrammarItemKey {
         self.production.associativity()
     }
 
-    pub fn precedence(&self) -> u16 {
+    pub fn precedence(&self) -> u32 {
         self.production.precedence()
     }
 
diff --git a/lalr1_lib/src/symbol.rs b/lalr1_lib/src/symbol.rs
index 3899938..8b8e34e 100644
--- a/lalr1_lib/src/symbol.rs
+++ b/lalr1_lib/src/symbol.rs
@@ -136,7 +136,7 @@ pub struct SymbolTable {
     regex_tokens: BTreeMap<String, Token>,
     non_terminals: BTreeMap<String, NonTerminal>,
     skip_rules: Vec<String>,
-    last_precedence: u16,
+    last_precedence: u32,
     start_non_terminal: NonTerminal,
     pub error_non_terminal: NonTerminal,
 }
diff --git a/lalr1_lib/src/symbol/tag.rs b/lalr1_lib/src/symbol/tag.rs
index 8fec117..b5dad40 100644
--- a/lalr1_lib/src/symbol/tag.rs
+++ b/lalr1_lib/src/symbol/tag.rs
@@ -11,7 +11,7 @@ pub struct TagData {
     defined_at: lexan::Location,
     used_at: RefCell<Vec<lexan::Location>>,
     associativity: Cell<Associativity>,
-    precedence: Cell<u16>,
+    precedence: Cell<u32>,
 }
 
 impl TagData {
@@ -50,7 +50,7 @@ impl Tag {
         self.0.associativity.get()
     }
 
-    pub fn precedence(&self) -> u16 {
+    pub fn precedence(&self) -> u32 {
         self.0.precedence.get()
     }
 
@@ -66,7 +66,7 @@ impl Tag {
         self.0.associativity.set(associativity)
     }
 
-    pub fn set_precedence(&self, precedence: u16) {
+    pub fn set_precedence(&self, precedence: u32) {
         self.0.precedence.set(precedence)
     }
 }
diff --git a/lalr1_lib/src/symbol/terminal.rs b/lalr1_lib/src/symbol/terminal.rs
index b3b5ce6..6c74486 100644
--- a/lalr1_lib/src/symbol/terminal.rs
+++ b/lalr1_lib/src/symbol/terminal.rs
@@ -17,7 +17,7 @@ pub struct TokenData {
     defined_at: lexan::Location,
     used_at: RefCell<Vec<lexan::Location>>,
     associativity: Cell<Associativity>,
-    precedence: Cell<u16>,
+    precedence: Cell<u32>,
 }
 
 impl TokenData {
@@ -115,7 +115,7 @@ impl Token {
         }
     }
 
-    pub fn precedence(&self) -> u16 {
+    pub fn precedence(&self) -> u32 {
         match self {
             Token::Literal(token_data) | Token::Regex(token_data) => token_data.precedence.get(),
             Token::End => 0,
@@ -131,7 +131,7 @@ impl Token {
         }
     }
 
-    pub fn associativity_and_precedence(&self) -> (Associativity, u16) {
+    pub fn associativity_and_precedence(&self) -> (Associativity, u32) {
         match self {
             Token::Literal(token_data) | Token::Regex(token_data) => {
                 (token_data.associativity.get(), token_data.precedence.get())
@@ -158,7 +158,7 @@ impl Token {
         }
     }
 
-    pub fn set_precedence(&self, precedence: u16) {
+    pub fn set_precedence(&self, precedence: u32) {
         debug_assert!(precedence > 0);
         match self {
             Token::Literal(token_data) | Token::Regex(token_data) => {
-- 
2.43.0


From 14ec8a10896a6bd36fad6367f970971143a68aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:42 +0000
Subject: [PATCH 29/30] fix: prefer the first declared of two productions
 ending in the error symbol

---
 alalr1_lib/src/state.rs | 2 +-
 lalr1_lib/src/state.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/alalr1_lib/src/state.rs b/alalr1_lib/src/state.rs
index 68925ea..6b2bd11 100644
--- a/alalr1_lib/src/state.rs
+++ b/alalr1_lib/src/state.rs
@@ -222,7 +222,7 @@ impl ParserState {
                         .borrow()
                         .look_ahead_intersection(key_1, key_2);
                     if intersection.len() > 0 && key_1.has_no_predicate() {
-                        if key_1.has_error_recovery_tail() {
+                        if key_1.has_error_recovery_tail() && !key_2.has_error_recovery_tail() {
                             self.0
                                 .grammar_items
                                 .borrow_mut()
diff --git a/lalr1_lib/src/state.rs b/lalr1_lib/src/state.rs
index 97ee176..1f1ce54 100644
--- a/lalr1_lib/src/state.rs
+++ b/lalr1_lib/src/state.rs
@@ -222,7 +222,7 @@ impl ParserState {
                         .borrow()
                         .look_ahead_intersection(key_1, key_2);
                     if intersection.len() > 0 {
-                        if key_1.has_error_recovery_tail() {
+                        if key_1.has_error_recovery_tail() && !key_2.has_error_recovery_tail() {
                             self.0
                                 .grammar_items
                                 .borrow_mut()
-- 
2.43.0


From 36e8e3674cb9c496138f175864a467024776b173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:11 +0000
Subject: [PATCH 30/30] fix: generators refuse to overwrite a specification
 through a hard link

---
 alalr1_gen/src/main.rs | 17 ++++++++++++++++-
 lalr1_gen/src/main.rs  | 17 ++++++++++++++++-
 2 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/alalr1_gen/src/main.rs b/alalr1_gen/src/main.rs
index f6bc365..c409def 100644
--- a/alalr1_gen/src/main.rs
+++ b/alalr1_gen/src/main.rs
@@ -37,11 +37,26 @@ struct CLOptions {
 
 fn is_same_file(path: &Path, other: &Path) -> bool {
     match (path.canonicalize(), other.canonicalize()) {
-        (Ok(path), Ok(other)) => path == other,
+        (Ok(path), Ok(other)) => path == other || is_hard_link(&path, &other),
         _ => false,
     }
 }
 
+#[cfg(unix)]
+fn is_hard_link(path: &Path, other: &Path) -> bool {
+    use std::os::unix::fs::MetadataExt;
+
+    match (path.metadata(), other.metadata()) {
+        (Ok(path), Ok(other)) => path.dev() == other.dev() && path.ino() == other.ino(),
+        _ => false,
+    }
+}
+
+#[cfg(not(unix))]
+fn is_hard_link(_path: &Path, _other: &Path) -> bool {
+    false
+}
+
 fn main() {
     let cl_options = CLOptions::from_args();
     let output_path = if let Some(output_path) = cl_options.output {
diff --git a/lalr1_gen/src/main.rs b/lalr1_gen/src/main.rs
index ee5fea8..b4663c7 100644
--- a/lalr1_gen/src/main.rs
+++ b/lalr1_gen/src/main.rs
@@ -38,11 +38,26 @@ struct CLOptions {
 
 fn is_same_file(path: &Path, other: &Path) -> bool {
     match (path.canonicalize(), other.canonicalize()) {
-        (Ok(path), Ok(other)) => path == other,
+        (Ok(path), Ok(other)) => path == other || is_hard_link(&path, &other),
         _ => false,
     }
 }
 
+#[cfg(unix)]
+fn is_hard_link(path: &Path, other: &Path) -> bool {
+    use std::os::unix::fs::MetadataExt;
+
+    match (path.metadata(), other.metadata()) {
+        (Ok(path), Ok(other)) => path.dev() == other.dev() && path.ino() == other.ino(),
+        _ => false,
+    }
+}
+
+#[cfg(not(unix))]
+fn is_hard_link(_path: &Path, _other: &Path) -> bool {
+    false
+}
+
 fn main() {
     let cl_options = CLOptions::from_args();
     let output_path = if let Some(output_path) = cl_options.output {
-- 
2.43.0

