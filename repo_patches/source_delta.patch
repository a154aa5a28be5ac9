From d2f1b7e9de80bab8d82ec3b109f7745b26f3d15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:42 +0000
Subject: [PATCH 01/36] fix: a comment on the last line without a newline no
 longer crashes the lexer

---
 src/lexical_analyzer/tokenizer.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/lexical_analyzer/tokenizer.rs b/src/lexical_analyzer/tokenizer.rs
index 605f494..52bb34c 100644
--- a/src/lexical_analyzer/tokenizer.rs
+++ b/src/lexical_analyzer/tokenizer.rs
@@ -121,10 +121,9 @@ impl<'a> LexicalAnalyzer<'a> {
                 }
                 // Comment
                 ';' => {
-                    let mut current = self.program[self.cursor.get()] as char;
-                    while current != '\n' {
+                    // a comment extends to the end of the line, or to the end of the file
+                    while !matches!(self.peek_next_char(), None | Some('\n')) {
                         self.cursor.set(self.cursor.get() + 1);
-                        current = self.program[self.cursor.get()] as char;
                     }
                     return self.parse(peek);
                 }
-- 
2.43.0


From 4523f800a9c8399272d790583de39d277c1c53c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:42 +0000
Subject: [PATCH 02/36] fix: a lexeme that ends at the end of the file is no
 longer truncated or lexed forever

---
 src/lexical_analyzer/tokenizer.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/lexical_analyzer/tokenizer.rs b/src/lexical_analyzer/tokenizer.rs
index 52bb34c..3edc4be 100644
--- a/src/lexical_analyzer/tokenizer.rs
+++ b/src/lexical_analyzer/tokenizer.rs
@@ -182,7 +182,6 @@ impl<'a> LexicalAnalyzer<'a> {
     // get next lexeme and new cursor position (to commit peek)
     fn peek_lexeme(&self, init_cur_pos: usize) -> Result<(&str, usize), LexicalError> {
         let mut cursor_pos = init_cur_pos;
-        let mut next_ch = self.program[cursor_pos] as char;
         let mut is_invalid = false;
         let mut is_valid_character = |c| match c {
             '_' | '-' => true,
@@ -198,13 +197,9 @@ impl<'a> LexicalAnalyzer<'a> {
                 }
             }
         };
-        while is_valid_character(next_ch) {
-            if cursor_pos < self.program.len() - 1 {
-                cursor_pos += 1;
-                next_ch = self.program[cursor_pos] as char;
-            } else {
-                break;
-            }
+        while cursor_pos < self.program.len() && is_valid_character(self.program[cursor_pos] as char)
+        {
+            cursor_pos += 1;
         }
         if is_invalid {
             return Err(LexicalError {
-- 
2.43.0


From 7c7febf93fc7cebe25c4271175a34f82a694dfa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:42 +0000
Subject: [PATCH 03/36] fix: a '?' without a variable name is reported instead
 of yielding an empty identifier

---
 src/lexical_analyzer/tokenizer.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lexical_analyzer/tokenizer.rs b/src/lexical_analyzer/tokenizer.rs
index 3edc4be..af72412 100644
--- a/src/lexical_analyzer/tokenizer.rs
+++ b/src/lexical_analyzer/tokenizer.rs
@@ -58,6 +58,13 @@ impl<'a> LexicalAnalyzer<'a> {
                         init_cur_pos += 1;
                     }
                     let (var_name, new_cur_pos) = self.peek_lexeme(init_cur_pos)?;
+                    if var_name.is_empty() {
+                        return Err(LexicalError {
+                            error_type: LexicalErrorType::InvalidIdentifier,
+                            lexeme: "?".to_string(),
+                            position: self.last_token_pos.get(),
+                        });
+                    }
                     if !peek {
                         self.cursor.set(new_cur_pos);
                     }
-- 
2.43.0


From 51ded56b5c74f97aec31b25a17abb5f5414c94ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:42 +0000
Subject: [PATCH 04/36] fix: bytes that are not valid UTF-8 are reported as a
 lexical error instead of a crash

---
 src/lexical_analyzer/tokenizer.rs | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/lexical_analyzer/tokenizer.rs b/src/lexical_analyzer/tokenizer.rs
index af72412..f2bf5cd 100644
--- a/src/lexical_analyzer/tokenizer.rs
+++ b/src/lexical_analyzer/tokenizer.rs
@@ -208,19 +208,16 @@ impl<'a> LexicalAnalyzer<'a> {
         {
             cursor_pos += 1;
         }
-        if is_invalid {
-            return Err(LexicalError {
+        // bytes that are not valid UTF-8 cannot form a lexeme
+        let lexeme = from_utf8(&self.program[init_cur_pos..cursor_pos]);
+        match lexeme {
+            Ok(lexeme) if !is_invalid => Ok((lexeme, cursor_pos)),
+            _ => Err(LexicalError {
                 error_type: LexicalErrorType::InvalidIdentifier,
-                lexeme: from_utf8(&self.program[init_cur_pos..cursor_pos])
-                    .unwrap()
+                lexeme: String::from_utf8_lossy(&self.program[init_cur_pos..cursor_pos])
                     .to_string(),
                 position: self.last_token_pos.get(),
-            });
-        } else {
-            return Ok((
-                from_utf8(&self.program[init_cur_pos..cursor_pos]).unwrap(),
-                cursor_pos,
-            ));
+            }),
         }
     }
 
-- 
2.43.0


From 3482287035fa3837630bd426dfa899ed70f6b706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:42 +0000
Subject: [PATCH 05/36] fix: lookahead recognises '<=' and '>=' like the
 committing scan does

---
 src/lexical_analyzer/tokenizer.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lexical_analyzer/tokenizer.rs b/src/lexical_analyzer/tokenizer.rs
index f2bf5cd..b6377e2 100644
--- a/src/lexical_analyzer/tokenizer.rs
+++ b/src/lexical_analyzer/tokenizer.rs
@@ -296,8 +296,11 @@ impl<'a> LexicalAnalyzer<'a> {
     }
 
     fn ordering_type(&self, c: &char, peek: bool) -> OperationType {
+        // the cursor is still on `c` when peeking
+        let next_pos = self.cursor.get() + peek as usize;
+        let next_char = self.program.get(next_pos).map(|byte| *byte as char);
         match c {
-            '<' => match self.peek_next_char() {
+            '<' => match next_char {
                 Some('=') => {
                     if !peek {
                         self.cursor.set(self.cursor.get() + 1);
@@ -306,7 +309,7 @@ impl<'a> LexicalAnalyzer<'a> {
                 }
                 _ => OperationType::LessThan,
             },
-            '>' => match self.peek_next_char() {
+            '>' => match next_char {
                 Some('=') => {
                     if !peek {
                         self.cursor.set(self.cursor.get() + 1);
-- 
2.43.0


From b6ab66c7a3e8123eebfc22c9cd9bf81820e2035e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:15 +0000
Subject: [PATCH 06/36] fix: a formula must be parenthesised, and an empty
 operand no longer ends its connector early

---
 .../domain_parser/formula_parser.rs           | 46 +++++++------------
 1 file changed, 16 insertions(+), 30 deletions(-)

diff --git a/src/syntactic_analyzer/domain_parser/formula_parser.rs b/src/syntactic_analyzer/domain_parser/formula_parser.rs
index 64788d3..de7c265 100644
--- a/src/syntactic_analyzer/domain_parser/formula_parser.rs
+++ b/src/syntactic_analyzer/domain_parser/formula_parser.rs
@@ -3,9 +3,6 @@ use super::*;
 impl<'a> Parser<'a> {
     pub fn parse_formula(&'a self) -> Result<Formula, ParsingError> {
         match self.tokenizer.get_token()? {
-            Token::Punctuator(PunctuationType::RParentheses) => {
-                return Ok(Formula::Empty);
-            }
             Token::Punctuator(PunctuationType::LParentheses) => {
                 match self.tokenizer.get_token()? {
                     // Not Operation
@@ -27,39 +24,15 @@ impl<'a> Parser<'a> {
                     }
                     // And Connector
                     Token::Operator(OperationType::And) => {
-                        let mut expressions = vec![];
-                        loop {
-                            let formula = self.parse_formula()?;
-                            if let Formula::Empty = formula {
-                                return Ok(Formula::And(expressions));
-                            } else {
-                                expressions.push(Box::new(formula));
-                            }
-                        }
+                        return Ok(Formula::And(self.parse_formulae()?));
                     }
                     // Xor Connector
                     Token::Operator(OperationType::Xor) => {
-                        let mut expressions = vec![];
-                        loop {
-                            let formula = self.parse_formula()?;
-                            if let Formula::Empty = formula {
-                                return Ok(Formula::Xor(expressions));
-                            } else {
-                                expressions.push(Box::new(formula));
-                            }
-                        }
+                        return Ok(Formula::Xor(self.parse_formulae()?));
                     }
                     // Or Connector
                     Token::Operator(OperationType::Or) => {
-                        let mut expressions = vec![];
-                        loop {
-                            let formula = self.parse_formula()?;
-                            if let Formula::Empty = formula {
-                                return Ok(Formula::Or(expressions));
-                            } else {
-                                expressions.push(Box::new(formula));
-                            }
-                        }
+                        return Ok(Formula::Or(self.parse_formulae()?));
                     }
                     // Equality
                     Token::Operator(OperationType::Equal) => match self.tokenizer.get_token()? {
@@ -216,4 +189,17 @@ impl<'a> Parser<'a> {
             }
         }
     }
+    // parses the operands of a connector, up to (and including) its closing ')'
+    fn parse_formulae(&'a self) -> Result<Vec<Box<Formula<'a>>>, ParsingError> {
+        let mut expressions = vec![];
+        loop {
+            match self.tokenizer.lookahead()? {
+                Token::Punctuator(PunctuationType::RParentheses) => {
+                    let _ = self.tokenizer.get_token()?;
+                    return Ok(expressions);
+                }
+                _ => expressions.push(Box::new(self.parse_formula()?)),
+            }
+        }
+    }
 }
-- 
2.43.0


From f8fc4699c3091096c3ad0cfffe5e014484a32bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:15 +0000
Subject: [PATCH 07/36] fix: an empty task network consumes its closing
 parenthesis, so the blocks after it are not dropped

---
 src/syntactic_analyzer/problem_parser/init_tn_parser.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/syntactic_analyzer/problem_parser/init_tn_parser.rs b/src/syntactic_analyzer/problem_parser/init_tn_parser.rs
index 2c0119b..f779a8f 100644
--- a/src/syntactic_analyzer/problem_parser/init_tn_parser.rs
+++ b/src/syntactic_analyzer/problem_parser/init_tn_parser.rs
@@ -32,6 +32,8 @@ impl<'a> Parser<'a> {
                 }
                 // empty init tn
                 Token::Punctuator(PunctuationType::RParentheses) => {
+                    // consume ')'
+                    let _ = self.tokenizer.get_token()?;
                     return Ok(InitialTaskNetwork {
                         parameters: None,
                         tn: HTN {
@@ -61,6 +63,8 @@ impl<'a> Parser<'a> {
         // check if it is an empty task network
         match self.tokenizer.lookahead()? {
             Token::Punctuator(PunctuationType::RParentheses) => {
+                // consume ')'
+                let _ = self.tokenizer.get_token()?;
                 return Ok(HTN {
                     subtasks,
                     ordering_pos,
-- 
2.43.0


From a478439cd3468ade6782446a98596958d8af0f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:16 +0000
Subject: [PATCH 08/36] fix: the constraints of an ordered task network must be
 followed by its closing parenthesis

---
 .../problem_parser/init_tn_parser.rs               | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/syntactic_analyzer/problem_parser/init_tn_parser.rs b/src/syntactic_analyzer/problem_parser/init_tn_parser.rs
index f779a8f..d21c664 100644
--- a/src/syntactic_analyzer/problem_parser/init_tn_parser.rs
+++ b/src/syntactic_analyzer/problem_parser/init_tn_parser.rs
@@ -198,16 +198,12 @@ impl<'a> Parser<'a> {
             }
             Token::Keyword(KeywordName::OrderedSubtasks) => {
                 subtasks = self.parse_subtasks()?;
+                if let Token::Keyword(KeywordName::Constraints) = self.tokenizer.lookahead()? {
+                    // skip ":constraints" keyword
+                    let _ = self.tokenizer.get_token()?;
+                    constraints = Some(self.parse_constraints()?);
+                }
                 match self.tokenizer.get_token()? {
-                    Token::Keyword(KeywordName::Constraints) => {
-                        constraints = Some(self.parse_constraints()?);
-                        return Ok(HTN {
-                            subtasks,
-                            ordering_pos,
-                            orderings: TaskOrdering::Total,
-                            constraints,
-                        });
-                    }
                     Token::Punctuator(PunctuationType::RParentheses) => {
                         return Ok(HTN {
                             subtasks,
-- 
2.43.0


From db0575385fab65436edbaf3d91aead45d5224e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:18 +0000
Subject: [PATCH 09/36] fix: an unexpected token between the blocks of a
 problem is a syntax error instead of a panic

---
 src/syntactic_analyzer/problem_parser/router.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/syntactic_analyzer/problem_parser/router.rs b/src/syntactic_analyzer/problem_parser/router.rs
index 9e941c9..e36a57f 100644
--- a/src/syntactic_analyzer/problem_parser/router.rs
+++ b/src/syntactic_analyzer/problem_parser/router.rs
@@ -66,8 +66,13 @@ impl <'a> Parser<'a> {
                 Token::EOF | Token::Punctuator(PunctuationType::RParentheses) => {
                     return Ok(syntax_tree);
                 }
-                err => {
-                    panic!("unexpected token {:?}", err)
+                token => {
+                    let error = SyntacticError {
+                        expected: format!("either ')' to close the definition of {}, or '(' to start defining new components", meta_data.problem_name),
+                        found: token.to_string(),
+                        position: self.tokenizer.get_last_token_position(),
+                    };
+                    return Err(ParsingError::Syntactic(error));
                 }
             }
         }
-- 
2.43.0


From 729ff14ecc315234ed16dfd4b885f3ca992fb38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:19 +0000
Subject: [PATCH 10/36] fix: the goal block consumes its closing parenthesis,
 so the blocks after it are not dropped

---
 src/syntactic_analyzer/problem_parser/router.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/syntactic_analyzer/problem_parser/router.rs b/src/syntactic_analyzer/problem_parser/router.rs
index e36a57f..335f2ce 100644
--- a/src/syntactic_analyzer/problem_parser/router.rs
+++ b/src/syntactic_analyzer/problem_parser/router.rs
@@ -45,7 +45,19 @@ impl <'a> Parser<'a> {
                         // goal state (optional)
                         Token::Keyword(KeywordName::Goal) => {
                             let goal = self.parse_formula()?;
-                            syntax_tree.add_goal(goal)
+                            match self.tokenizer.get_token()? {
+                                Token::Punctuator(PunctuationType::RParentheses) => {
+                                    syntax_tree.add_goal(goal)
+                                }
+                                token => {
+                                    let error = SyntacticError {
+                                        expected: "')' after the definition of the goal".to_string(),
+                                        found: token.to_string(),
+                                        position: self.tokenizer.get_last_token_position(),
+                                    };
+                                    return Err(ParsingError::Syntactic(error));
+                                }
+                            }
                         }
                         // initial state
                         Token::Keyword(KeywordName::Init) => {
-- 
2.43.0


From d8d02a90dd1ebc155dbafdc8f1a6e1eb62ff02ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:24 +0000
Subject: [PATCH 11/36] fix: content after the closing parenthesis of a
 definition is reported instead of being ignored

---
 src/language_server/diagnostic_utils.rs |  6 +++---
 src/lib.rs                              | 10 +++++-----
 src/syntactic_analyzer/parser.rs        | 16 ++++++++++++++++
 3 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/language_server/diagnostic_utils.rs b/src/language_server/diagnostic_utils.rs
index 5102f09..2f41d4e 100644
--- a/src/language_server/diagnostic_utils.rs
+++ b/src/language_server/diagnostic_utils.rs
@@ -24,7 +24,7 @@ pub fn diagnose_domain(content: &Vec<u8>) -> DocumentDiagnosticReportResult {
     let lexer = LexicalAnalyzer::new(content);
     let parser = Parser::new(lexer);
     let mut items = vec![];
-    match parser.parse() {
+    match parser.parse_document() {
         Ok(ast) => {
             if let AbstractSyntaxTree::Domain(d_ast) = ast {
                 match DomainSemanticAnalyzer::new(&d_ast).verify_domain() {
@@ -82,7 +82,7 @@ pub fn diagnose_problem(domain_content: Option<&Vec<u8>>, problem_content: &Vec<
         Some(content) => {
             domain_lexer = LexicalAnalyzer::new(content);
             domain_parser = Parser::new(domain_lexer);
-            match domain_parser.parse() {
+            match domain_parser.parse_document() {
                 Ok(d_ast) => {
                     if let AbstractSyntaxTree::Domain(d) = d_ast {
                         domain_ast = d;
@@ -106,7 +106,7 @@ pub fn diagnose_problem(domain_content: Option<&Vec<u8>>, problem_content: &Vec<
         None => {}
     }
     let problem_lexer = LexicalAnalyzer::new(problem_content);
-    match Parser::new(problem_lexer).parse() {
+    match Parser::new(problem_lexer).parse_document() {
         Ok(ast) if symbol_table.is_some() => {
             if let AbstractSyntaxTree::Problem(p_ast) = ast {
                 let semantic_verifier = ProblemSemanticAnalyzer::new(
diff --git a/src/lib.rs b/src/lib.rs
index 3a996c3..1c4318c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -25,7 +25,7 @@ impl HDDLAnalyzer {
     ) -> Result<Vec<output::WarningType>, output::ParsingError> {
         let lexer = LexicalAnalyzer::new(&domain);
         let domain_parser = syntactic_analyzer::Parser::new(lexer);
-        let domain_ast = domain_parser.parse()?;
+        let domain_ast = domain_parser.parse_document()?;
         if let AbstractSyntaxTree::Domain(d) = domain_ast {
             let domain_semantic_verifier = DomainSemanticAnalyzer::new(&d);
             let symbol_table = domain_semantic_verifier.verify_domain()?;
@@ -33,7 +33,7 @@ impl HDDLAnalyzer {
                 Some(p) => {
                     let lexer = LexicalAnalyzer::new(p);
                     let problem_parser = syntactic_analyzer::Parser::new(lexer);
-                    let problem_ast = problem_parser.parse()?;
+                    let problem_ast = problem_parser.parse_document()?;
                     match problem_ast {
                         AbstractSyntaxTree::Problem(p_ast) => {
                             let problem_semantic_verifier =
@@ -59,7 +59,7 @@ impl HDDLAnalyzer {
     ) -> Result<MetaData, ParsingError> {
         let lexer = LexicalAnalyzer::new(&domain);
         let domain_parser = syntactic_analyzer::Parser::new(lexer);
-        let domain_ast = domain_parser.parse()?;
+        let domain_ast = domain_parser.parse_document()?;
         match domain_ast {
             AbstractSyntaxTree::Domain(d) => {
                 let tdg = TDG::new(&d);
@@ -81,13 +81,13 @@ impl HDDLAnalyzer {
     pub fn to_json(domain: &Vec<u8>, problem: Option<&Vec<u8>>) -> Result<String, ParsingError> {
         let lexer = LexicalAnalyzer::new(&domain);
         let domain_parser = syntactic_analyzer::Parser::new(lexer);
-        let domain_ast = domain_parser.parse()?;
+        let domain_ast = domain_parser.parse_document()?;
         match domain_ast {
             AbstractSyntaxTree::Domain(d) => match problem {
                 Some(p) => {
                     let lexer = LexicalAnalyzer::new(p);
                     let problem_parser = syntactic_analyzer::Parser::new(lexer);
-                    let problem_ast = problem_parser.parse()?;
+                    let problem_ast = problem_parser.parse_document()?;
                     match problem_ast {
                         AbstractSyntaxTree::Problem(p) => {
                             let root = HashMap::from(
diff --git a/src/syntactic_analyzer/parser.rs b/src/syntactic_analyzer/parser.rs
index 4d8fb94..35ced69 100644
--- a/src/syntactic_analyzer/parser.rs
+++ b/src/syntactic_analyzer/parser.rs
@@ -37,6 +37,22 @@ impl<'a> Parser<'a> {
         }
     }
 
+    // parses a whole file: nothing may follow the definition
+    pub fn parse_document(&'a self) -> Result<AbstractSyntaxTree<'a>, ParsingError> {
+        let ast = self.parse()?;
+        match self.tokenizer.get_token()? {
+            Token::EOF => Ok(ast),
+            token => {
+                let error = SyntacticError {
+                    expected: "end of the file after the definition".to_string(),
+                    found: token.to_string(),
+                    position: self.tokenizer.get_last_token_position(),
+                };
+                return Err(ParsingError::Syntactic(error));
+            }
+        }
+    }
+
     pub fn classify(&self) -> FileVariant {
         self.tokenizer.reset_cursor();
         let mut variant = FileVariant::MaybeNotHDDL;
-- 
2.43.0


From be709b2d37dfa2d882f45e195e7add6663525fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:25 +0000
Subject: [PATCH 12/36] fix: a problem given in place of a domain (or vice
 versa) is reported instead of a panic

---
 src/lib.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1c4318c..625c888 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -41,15 +41,13 @@ impl HDDLAnalyzer {
                             let warnings = problem_semantic_verifier.verify_problem()?;
                             Ok(warnings)
                         }
-                        _ => {
-                            panic!("expected problem, found domain")
-                        }
+                        _ => Err(unexpected_file("problem", "domain")),
                     }
                 }
                 None => Ok(symbol_table.warnings),
             }
         } else {
-            panic!("expected domain, found problem")
+            Err(unexpected_file("domain", "problem"))
         }
     }
 
@@ -74,7 +72,7 @@ impl HDDLAnalyzer {
                     n_methods: d.methods.len() as u32,
                 })
             }
-            _ => panic!("expected domain, found problem"),
+            _ => Err(unexpected_file("domain", "problem")),
         }
     }
 
@@ -99,9 +97,7 @@ impl HDDLAnalyzer {
                             return Ok(serde_json::to_string_pretty(&root).unwrap());
 
                         }
-                        _ => {
-                            panic!("expected problem, found domain")
-                        }
+                        _ => Err(unexpected_file("problem", "domain")),
                     }
                 }
                 None => {
@@ -113,7 +109,16 @@ impl HDDLAnalyzer {
                     return Ok(serde_json::to_string_pretty(&root).unwrap());
                 }
             },
-            _ => panic!("expected domain, found problem"),
+            _ => Err(unexpected_file("domain", "problem")),
         }
     }
 }
+
+// the error for a file of the wrong kind (e.g. a problem given in place of a domain)
+fn unexpected_file(expected: &str, found: &str) -> ParsingError {
+    ParsingError::Syntactic(SyntacticError {
+        expected: format!("a {} definition", expected),
+        found: format!("a {} definition", found),
+        position: TokenPosition { line: 1 },
+    })
+}
-- 
2.43.0


From 352884cdf2c96f6eb8e16358eaceae692ad5448e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:50 +0000
Subject: [PATCH 13/36] fix: existentially quantified formulae are checked like
 universally quantified ones instead of a panic

---
 src/semantic_analyzer/undefined_elements.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/semantic_analyzer/undefined_elements.rs b/src/semantic_analyzer/undefined_elements.rs
index c84c907..35b9db5 100644
--- a/src/semantic_analyzer/undefined_elements.rs
+++ b/src/semantic_analyzer/undefined_elements.rs
@@ -38,16 +38,17 @@ pub fn check_predicate_declarations<'a>(
                 check_predicate_declarations(&*f, declared_predicates)?;
             }
         }
-        Formula::ForAll(_, new_formula) => {
+        Formula::ForAll(_, new_formula) | Formula::Exists(_, new_formula) => {
             return check_predicate_declarations(&*new_formula, declared_predicates);
         }
         Formula::Equals(_, _) => {}
         Formula::Weighted(_, new_formula) => {
             return check_predicate_declarations(&*new_formula, declared_predicates);
         }
-        // TODO: add support for imply, and exists
-        _ => {
-            panic!()
+        Formula::Imply(ps, qs) => {
+            for f in ps.iter().chain(qs.iter()) {
+                check_predicate_declarations(&*f, declared_predicates)?;
+            }
         }
     }
     return Ok(());
-- 
2.43.0


From 4a18f788e352aa3414d86a40f47ba2182352c9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:51 +0000
Subject: [PATCH 14/36] fix: the type error of a problem predicate names the
 type of the object that was found

---
 src/semantic_analyzer/type_checker/problem_type_checker.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/semantic_analyzer/type_checker/problem_type_checker.rs b/src/semantic_analyzer/type_checker/problem_type_checker.rs
index e77d954..284825a 100644
--- a/src/semantic_analyzer/type_checker/problem_type_checker.rs
+++ b/src/semantic_analyzer/type_checker/problem_type_checker.rs
@@ -58,7 +58,7 @@ impl<'a> ProblemTypeChecker<'a> {
                                 return Err(SemanticErrorType::InconsistentPredicateArgType(
                                     TypeError {
                                         expected: expected.symbol_type.map(String::from),
-                                        found: found.symbol_type.map(String::from),
+                                        found: object_type.map(String::from),
                                         var_name: predicate.name.to_string(),
                                         position: found.name_pos,
                                     },
-- 
2.43.0


From ce89ce41625690b053e8308596beb405d3a48921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:52 +0000
Subject: [PATCH 15/36] fix: expected and found arity of a method's task are no
 longer swapped

---
 src/semantic_analyzer/analyzers/domain_analyzer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/semantic_analyzer/analyzers/domain_analyzer.rs b/src/semantic_analyzer/analyzers/domain_analyzer.rs
index 405fdef..bdb2929 100644
--- a/src/semantic_analyzer/analyzers/domain_analyzer.rs
+++ b/src/semantic_analyzer/analyzers/domain_analyzer.rs
@@ -158,8 +158,8 @@ impl<'a> DomainSemanticAnalyzer<'a> {
                         if method.task_terms.len() != declared_compound_task.parameters.len() {
                             return Err(SemanticErrorType::InconsistentTaskArity(ArityError {
                                 symbol: method.task.name.to_string(),
-                                expected_arity: method.task_terms.len() as u32,
-                                found_arity: declared_compound_task.parameters.len() as u32,
+                                expected_arity: declared_compound_task.parameters.len() as u32,
+                                found_arity: method.task_terms.len() as u32,
                                 position: method.task.name_pos,
                             }));
                         } else {
-- 
2.43.0


From 3729b4581edfb77507709e1a4440e16d2b11450d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:54 +0000
Subject: [PATCH 16/36] fix: a constant of the wrong type in the initial task
 network is a task argument error

---
 src/semantic_analyzer/type_checker/problem_type_checker.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/semantic_analyzer/type_checker/problem_type_checker.rs b/src/semantic_analyzer/type_checker/problem_type_checker.rs
index 284825a..6e7ecc6 100644
--- a/src/semantic_analyzer/type_checker/problem_type_checker.rs
+++ b/src/semantic_analyzer/type_checker/problem_type_checker.rs
@@ -177,7 +177,7 @@ impl<'a> ProblemTypeChecker<'a> {
                                         );
                                     if !is_consistent {
                                         return Err(
-                                            SemanticErrorType::InconsistentPredicateArgType(
+                                            SemanticErrorType::InconsistentTaskArgType(
                                                 TypeError {
                                                     expected: expected
                                                         .symbol_type
@@ -268,7 +268,7 @@ impl<'a> ProblemTypeChecker<'a> {
                                         );
                                     if !is_consistent {
                                         return Err(
-                                            SemanticErrorType::InconsistentPredicateArgType(
+                                            SemanticErrorType::InconsistentTaskArgType(
                                                 TypeError {
                                                     expected: expected
                                                         .symbol_type
-- 
2.43.0


From 03ec3485a88a12477ff31b9f9a0cf439d61d860c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:59 +0000
Subject: [PATCH 17/36] fix: undeclared types of constants, formula-less
 actions and methods, and initial task network parameters are reported

---
 src/semantic_analyzer/analyzers/domain_analyzer.rs  | 12 ++++++++++++
 src/semantic_analyzer/analyzers/problem_analyzer.rs |  6 ++++++
 2 files changed, 18 insertions(+)

diff --git a/src/semantic_analyzer/analyzers/domain_analyzer.rs b/src/semantic_analyzer/analyzers/domain_analyzer.rs
index bdb2929..a12f15c 100644
--- a/src/semantic_analyzer/analyzers/domain_analyzer.rs
+++ b/src/semantic_analyzer/analyzers/domain_analyzer.rs
@@ -32,6 +32,10 @@ impl<'a> DomainSemanticAnalyzer<'a> {
         let mut declared_constants = HashSet::new();
         match &self.domain.constants {
             Some(constants) => {
+                // assert constant types are declared
+                if let Some(error) = self.type_checker.check_type_declarations(constants) {
+                    return Err(error);
+                }
                 for c in constants {
                     declared_constants.insert(c);
                 }
@@ -70,6 +74,10 @@ impl<'a> DomainSemanticAnalyzer<'a> {
                     param_positions.insert(param.name, param.name_pos);
                 }
             }
+            // assert parameter types are declared
+            if let Some(error) = self.type_checker.check_type_declarations(&action.parameters) {
+                return Err(error);
+            }
             // assert precondition predicates are declared
             match &action.preconditions {
                 Some(precondition) => {
@@ -131,6 +139,10 @@ impl<'a> DomainSemanticAnalyzer<'a> {
                     param_positions.insert(param.name, param.name_pos);
                 }
             }
+            // assert parameter types are declared
+            if let Some(error) = self.type_checker.check_type_declarations(&method.params) {
+                return Err(error);
+            }
             // Assert preconditions are valid
             match &method.precondition {
                 Some(precondition) => {
diff --git a/src/semantic_analyzer/analyzers/problem_analyzer.rs b/src/semantic_analyzer/analyzers/problem_analyzer.rs
index 6ba5fef..c28ff56 100644
--- a/src/semantic_analyzer/analyzers/problem_analyzer.rs
+++ b/src/semantic_analyzer/analyzers/problem_analyzer.rs
@@ -50,6 +50,12 @@ impl<'a> ProblemSemanticAnalyzer<'a> {
 
         // check the initial task network
         if let Some(htn) = &self.problem.init_tn {
+            // assert parameter types are declared
+            if let Some(parameters) = &htn.parameters {
+                if let Some(error) = self.type_checker.check_type_declarations(parameters) {
+                    return Err(error);
+                }
+            }
             if !htn.tn.orderings.is_acyclic() {
                 return Err(
                     SemanticErrorType::CyclicOrderingDeclaration(
-- 
2.43.0


From 77ab8c3bd52b4b7a43bca8e9e505bc9d3bfe9989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:00 +0000
Subject: [PATCH 18/36] fix: duplicate constants are reported

---
 src/semantic_analyzer/analyzers/domain_analyzer.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/semantic_analyzer/analyzers/domain_analyzer.rs b/src/semantic_analyzer/analyzers/domain_analyzer.rs
index a12f15c..e71deda 100644
--- a/src/semantic_analyzer/analyzers/domain_analyzer.rs
+++ b/src/semantic_analyzer/analyzers/domain_analyzer.rs
@@ -30,6 +30,7 @@ impl<'a> DomainSemanticAnalyzer<'a> {
         let declared_predicates = self.verify_predicates()?;
         let declared_tasks = self.verify_compound_tasks()?;
         let mut declared_constants = HashSet::new();
+        let mut constant_positions = HashMap::new();
         match &self.domain.constants {
             Some(constants) => {
                 // assert constant types are declared
@@ -37,7 +38,17 @@ impl<'a> DomainSemanticAnalyzer<'a> {
                     return Err(error);
                 }
                 for c in constants {
-                    declared_constants.insert(c);
+                    if !declared_constants.insert(c) {
+                        return Err(SemanticErrorType::DuplicateObjectDeclaration(
+                            DuplicateError {
+                                symbol: c.name.to_string(),
+                                first_pos: *constant_positions.get(c.name).unwrap(),
+                                second_pos: c.name_pos,
+                            },
+                        ));
+                    } else {
+                        constant_positions.insert(c.name, c.name_pos);
+                    }
                 }
             }
             None => {}
-- 
2.43.0


From 8e407134118be29b59b4f70bf7439eb4b8d6ba55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:02 +0000
Subject: [PATCH 19/36] fix: quantified predicates of the goal are checked
 against the declared ones

---
 src/semantic_analyzer/analyzers/problem_analyzer.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/semantic_analyzer/analyzers/problem_analyzer.rs b/src/semantic_analyzer/analyzers/problem_analyzer.rs
index c28ff56..830c5be 100644
--- a/src/semantic_analyzer/analyzers/problem_analyzer.rs
+++ b/src/semantic_analyzer/analyzers/problem_analyzer.rs
@@ -74,6 +74,15 @@ impl<'a> ProblemSemanticAnalyzer<'a> {
         // check goal description
         match &self.problem.goal {
             Some(goal) => {
+                // assert all predicates (including the quantified ones) are declared
+                let declared_predicates = self
+                    .type_checker
+                    .symbol_table
+                    .predicates
+                    .iter()
+                    .map(|predicate| (*predicate).clone())
+                    .collect();
+                check_predicate_declarations(goal, &declared_predicates)?;
                 for predicate in goal.get_propositional_predicates() {
                     let _ = self.type_checker.check_predicate_instantiation(predicate)?;
                 }
-- 
2.43.0


From 5550598e4e8bccd96dd6c47df303c59434660b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:04 +0000
Subject: [PATCH 20/36] fix: the message of a task arity error states its line

---
 src/output/errors/semantic.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/output/errors/semantic.rs b/src/output/errors/semantic.rs
index 348ee90..fcec700 100644
--- a/src/output/errors/semantic.rs
+++ b/src/output/errors/semantic.rs
@@ -87,8 +87,8 @@ impl fmt::Display for SemanticErrorType {
             SemanticErrorType::InconsistentTaskArity(ar_error) => {
                 write!(
                     f,
-                    "Task {} takes {} parameters, but {} are given.",
-                    ar_error.symbol, ar_error.expected_arity, ar_error.found_arity
+                    "line {}: Task {} takes {} parameters, but {} are given.",
+                    ar_error.position.line, ar_error.symbol, ar_error.expected_arity, ar_error.found_arity
                 )
             }
             SemanticErrorType::InconsistentPredicateArgType(type_error) => {
-- 
2.43.0


From 484ef3263f2ece3b00304179f4a5cd6b16f74150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:35 +0000
Subject: [PATCH 21/36] fix: a task is unit reachable through a method only if
 all its other subtasks are nullable

---
 src/semantic_analyzer/tdg.rs | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/semantic_analyzer/tdg.rs b/src/semantic_analyzer/tdg.rs
index 7117eae..0029e36 100644
--- a/src/semantic_analyzer/tdg.rs
+++ b/src/semantic_analyzer/tdg.rs
@@ -473,18 +473,10 @@ impl<'a> TDG<'a> {
                 }
                 for method in self.edges_from_tasks.get(c).unwrap() {
                     if let Some(tasks) = self.edges_to_tasks.get(method) {
-                        let mut not_nullable = None;
-                        for task in tasks {
-                            if !nullables.contains(task) {
-                                if not_nullable.is_none() {
-                                    not_nullable = Some(*task)
-                                } else {
-                                    break;
-                                }
-                            }
-                        }
-                        if let Some(val) = not_nullable {
-                            change.insert(val);
+                        // only reachable on its own if everything else vanishes
+                        let mut not_nullables = tasks.iter().filter(|x| !nullables.contains(*x));
+                        if let (Some(val), None) = (not_nullables.next(), not_nullables.next()) {
+                            change.insert(*val);
                         }
                     }
                 }
-- 
2.43.0


From 8bfd1f5c4a24bfdbf5b1ca60808c817c9687c46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:36 +0000
Subject: [PATCH 22/36] fix: the nullable tasks of a domain without compound
 tasks are computed instead of looping forever

---
 src/semantic_analyzer/tdg.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/semantic_analyzer/tdg.rs b/src/semantic_analyzer/tdg.rs
index 0029e36..f892775 100644
--- a/src/semantic_analyzer/tdg.rs
+++ b/src/semantic_analyzer/tdg.rs
@@ -442,6 +442,7 @@ impl<'a> TDG<'a> {
         let mut new_nullables = HashSet::new();
         let mut new_unit_reachable: HashMap<usize, HashSet<usize>> = HashMap::new();
         while changed_nullables || changed_unit_reachability {
+            changed_unit_reachability = false;
             // nullables induction step
             for (t, methods) in self.edges_from_tasks.iter() {
                 for method in methods {
@@ -480,9 +481,8 @@ impl<'a> TDG<'a> {
                         }
                     }
                 }
-                if change == *previous_reachables {
-                    changed_unit_reachability = false;
-                } else {
+                if change != *previous_reachables {
+                    changed_unit_reachability = true;
                     new_unit_reachable.insert(*c, change);
                 }
             }
-- 
2.43.0


From 8c95f267ab48ead7d2e7fad28b6ea53713d8abda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:37 +0000
Subject: [PATCH 23/36] fix: a cycle prefix that starts with the recurring task
 must be nullable to count as empty

---
 src/semantic_analyzer/tdg.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/semantic_analyzer/tdg.rs b/src/semantic_analyzer/tdg.rs
index f892775..36102bb 100644
--- a/src/semantic_analyzer/tdg.rs
+++ b/src/semantic_analyzer/tdg.rs
@@ -173,14 +173,10 @@ impl<'a> TDG<'a> {
                             let (_, m_id) = cyclic_path[index];
                             let prefix = self.get_prefix(*t_id, m_id);
                             // check epsilon prefix
-                            if prefix.len() > 0 {
-                                if prefix[0] != *new_task {
-                                    for x in prefix.iter() {
-                                        if !nullables.contains(x) {
-                                            is_epsilon_prefix = false;
-                                            break;
-                                        }
-                                    }
+                            for x in prefix.iter() {
+                                if !nullables.contains(x) {
+                                    is_epsilon_prefix = false;
+                                    break;
                                 }
                             }
                             suffix.extend(self.get_suffix(*t_id, m_id));
-- 
2.43.0


From 73a00c88d5e2afb28d013392ba50e6e0724541e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:41 +0000
Subject: [PATCH 24/36] fix: prefixes and suffixes of partially ordered methods
 follow their orderings instead of panicking or looping

---
 src/semantic_analyzer/tdg.rs | 138 ++++++++++++-----------------------
 1 file changed, 47 insertions(+), 91 deletions(-)

diff --git a/src/semantic_analyzer/tdg.rs b/src/semantic_analyzer/tdg.rs
index 36102bb..9e64424 100644
--- a/src/semantic_analyzer/tdg.rs
+++ b/src/semantic_analyzer/tdg.rs
@@ -266,56 +266,15 @@ impl<'a> TDG<'a> {
             }
             TaskOrdering::Partial(orderings) => {
                 // TODO: generalize to unordered tasks
-                assert_eq!(orderings.len(), method.subtasks.len() - 1);
-                // construct task id mappings
-                let mut id_to_task_mapping: HashMap<&str, &str> = HashMap::new();
-                let mut task_occurances: HashSet<&str> = HashSet::new();
-                for subtask in method.subtasks.iter() {
-                    match &subtask.id {
-                        Some(id) => {
-                            id_to_task_mapping.insert(&id.name, &subtask.task.name);
-                            if subtask.task.name == *task {
-                                task_occurances.insert(&id.name);
-                            }
-                        }
-                        None => {}
-                    }
-                }
-                // construct the ordering graph
-                let mut adjacency: HashMap<&str, HashSet<&str>> = HashMap::new();
-                for (e1, e2) in orderings {
-                    if adjacency.contains_key(e1) {
-                        let neighbors: &mut HashSet<&str> = adjacency.get_mut(e1).unwrap();
-                        neighbors.insert(&e2);
-                    } else {
-                        adjacency.insert(&e1, HashSet::from([*e2]));
-                    }
-                }
-                // find tasks that are explicitly ordered after "task"
-                let mut prefix: Vec<&str> = Vec::new();
-                let mut stack = Vec::from_iter(task_occurances.iter());
-                while let Some(t) = stack.pop() {
-                    match adjacency.get(t) {
-                        Some(outgoings) => {
-                            for outgoing in outgoings {
-                                for occurance in task_occurances.iter() {
-                                    if outgoing.contains(occurance) {
-                                        prefix.push(id_to_task_mapping.get(t).unwrap());
-                                        stack.push(&t);
-                                    }
-                                }
-                            }
-                        }
-                        None => {}
-                    }
-                }
-                return prefix
+                let occurances = self.get_ids(task, method);
+                let predecessors: Vec<HashSet<&str>> = occurances
                     .iter()
-                    .map(|id| {
-                        let task_name = id_to_task_mapping.get(id).unwrap();
-                        self.get_task_index(&task_name)
-                    })
+                    .map(|id| TDG::get_ordered_ids(id, orderings.iter().map(|(x, y)| (*y, *x)).collect()))
                     .collect();
+                // find tasks that are explicitly ordered before (every occurance of) "task"
+                return self.get_tasks_of_ids(method, |id| {
+                    predecessors.len() > 0 && predecessors.iter().all(|x| x.contains(id))
+                });
             }
         }
     }
@@ -339,52 +298,49 @@ impl<'a> TDG<'a> {
             }
             TaskOrdering::Partial(orderings) => {
                 // TODO: generalize to unordered tasks
-                assert_eq!(orderings.len(), method.subtasks.len() - 1);
-                // construct task id mappings
-                let mut id_to_task_mapping: HashMap<&str, &str> = HashMap::new();
-                let mut task_occurances: HashSet<&str> = HashSet::new();
-                for subtask in method.subtasks.iter() {
-                    match &subtask.id {
-                        Some(id) => {
-                            id_to_task_mapping.insert(&id.name, &subtask.task.name);
-                            if subtask.task.name == *task {
-                                task_occurances.insert(&id.name);
-                            }
-                        }
-                        None => {}
-                    }
-                }
-                // construct ordering graph
-                let mut adjacency: HashMap<&str, HashSet<&str>> = HashMap::new();
-                for (e1, e2) in orderings {
-                    if adjacency.contains_key(e1) {
-                        let neighbors: &mut HashSet<&str> = adjacency.get_mut(e1).unwrap();
-                        neighbors.insert(e2);
-                    } else {
-                        adjacency.insert(e1, HashSet::from([*e2]));
-                    }
-                }
-                // find tasks that are explicitly ordered after "task"
-                let mut suffix: Vec<&str> = Vec::new();
-                let mut stack = Vec::from_iter(task_occurances.iter());
-                while let Some(t) = stack.pop() {
-                    match adjacency.get(t) {
-                        Some(outgoing) => {
-                            stack.extend(outgoing.iter());
-                            suffix.extend(outgoing.iter());
-                        }
-                        None => {}
-                    }
-                }
-                suffix
+                let occurances = self.get_ids(task, method);
+                let successors: Vec<HashSet<&str>> = occurances
                     .iter()
-                    .map(|id| {
-                        let task_name = id_to_task_mapping.get(id).unwrap();
-                        self.get_task_index(&task_name)
-                    })
-                    .collect()
+                    .map(|id| TDG::get_ordered_ids(id, orderings.clone()))
+                    .collect();
+                // find tasks that are explicitly ordered after (an occurance of) "task"
+                return self.get_tasks_of_ids(method, |id| successors.iter().any(|x| x.contains(id)));
+            }
+        }
+    }
+
+    // ids of the subtasks of method that are instances of "task"
+    fn get_ids(&self, task: &str, method: &HTN<'a>) -> Vec<&'a str> {
+        method
+            .subtasks
+            .iter()
+            .filter(|subtask| subtask.task.name == task)
+            .filter_map(|subtask| subtask.id.as_ref().map(|id| id.name))
+            .collect()
+    }
+
+    // ids that can be reached from "id" via the orderings
+    fn get_ordered_ids(id: &'a str, orderings: Vec<(&'a str, &'a str)>) -> HashSet<&'a str> {
+        let mut visited = HashSet::new();
+        let mut stack = vec![id];
+        while let Some(current) = stack.pop() {
+            for (x, y) in orderings.iter() {
+                if *x == current && visited.insert(*y) {
+                    stack.push(*y);
+                }
             }
         }
+        visited
+    }
+
+    // tasks of those subtasks of method whose id is selected
+    fn get_tasks_of_ids(&self, method: &HTN<'a>, selected: impl Fn(&str) -> bool) -> Vec<usize> {
+        method
+            .subtasks
+            .iter()
+            .filter(|subtask| subtask.id.as_ref().map_or(false, |id| selected(id.name)))
+            .map(|subtask| self.get_task_index(subtask.task.name))
+            .collect()
     }
 
     fn get_task_index(&self, task_name: &str) -> usize {
-- 
2.43.0


From f1dcf1fac9bbf79c41ede1d3a264c2931d74f71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:20 +0000
Subject: [PATCH 25/36] fix: metadata of a domain with undefined tasks is an
 error instead of a panic

---
 src/lib.rs                                  |  1 +
 src/semantic_analyzer/mod.rs                |  3 ++-
 src/semantic_analyzer/undefined_elements.rs | 23 +++++++++++++++++++++
 3 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 625c888..05d8b40 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -60,6 +60,7 @@ impl HDDLAnalyzer {
         let domain_ast = domain_parser.parse_document()?;
         match domain_ast {
             AbstractSyntaxTree::Domain(d) => {
+                check_task_declarations(&d)?;
                 let tdg = TDG::new(&d);
                 let nullables = tdg.compute_nullables();
                 let recursion_type = tdg.get_recursion_type(&nullables);
diff --git a/src/semantic_analyzer/mod.rs b/src/semantic_analyzer/mod.rs
index 6bcde83..535d178 100644
--- a/src/semantic_analyzer/mod.rs
+++ b/src/semantic_analyzer/mod.rs
@@ -12,4 +12,5 @@ use type_checker::*;
 extern crate petgraph;
 
 pub use analyzers::*;
-pub use tdg::TDG;
\ No newline at end of file
+pub use tdg::TDG;
+pub use undefined_elements::check_task_declarations;
\ No newline at end of file
diff --git a/src/semantic_analyzer/undefined_elements.rs b/src/semantic_analyzer/undefined_elements.rs
index 35b9db5..bdee3db 100644
--- a/src/semantic_analyzer/undefined_elements.rs
+++ b/src/semantic_analyzer/undefined_elements.rs
@@ -1,5 +1,28 @@
 use super::*;
 
+// checks that methods refine (resp. decompose to) declared tasks
+pub fn check_task_declarations(domain: &DomainAST) -> Result<(), SemanticErrorType> {
+    for method in domain.methods.iter() {
+        if !domain.compound_tasks.iter().any(|x| x.name == method.task.name) {
+            return Err(SemanticErrorType::UndefinedTask(UndefinedSymbolError {
+                symbol: method.task.name.to_string(),
+                position: method.task.name_pos,
+            }));
+        }
+        for subtask in method.tn.subtasks.iter() {
+            if !domain.compound_tasks.iter().any(|x| x.name == subtask.task.name)
+                && !domain.actions.iter().any(|x| x.name == subtask.task.name)
+            {
+                return Err(SemanticErrorType::UndefinedSubtask(UndefinedSymbolError {
+                    symbol: subtask.task.name.to_string(),
+                    position: subtask.task.name_pos,
+                }));
+            }
+        }
+    }
+    Ok(())
+}
+
 pub fn check_predicate_declarations<'a>(
     formula: &Formula<'a>,
     declared_predicates: &Vec<Predicate<'a>>,
-- 
2.43.0


From 88fea5c043d4ce2946ff373f5c0b4b0de0a13cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:22 +0000
Subject: [PATCH 26/36] fix: every compound task without a primitive refinement
 is flagged, in declaration order

---
 .../analyzers/domain_analyzer.rs              |  6 ++--
 src/semantic_analyzer/tdg.rs                  | 28 +++++++++++++++++++
 2 files changed, 31 insertions(+), 3 deletions(-)

diff --git a/src/semantic_analyzer/analyzers/domain_analyzer.rs b/src/semantic_analyzer/analyzers/domain_analyzer.rs
index e71deda..3ba6901 100644
--- a/src/semantic_analyzer/analyzers/domain_analyzer.rs
+++ b/src/semantic_analyzer/analyzers/domain_analyzer.rs
@@ -222,9 +222,9 @@ impl<'a> DomainSemanticAnalyzer<'a> {
         }
         // Check whether all compound tasks can be refined to primitive ones
         let tdg = TDG::new(self.domain);
-        for task in declared_tasks.iter() {
-            let reachables = tdg.reachable(&task.name);
-            if (reachables.primitives.len() == 0) && (reachables.nullable == false) {
+        let refinables = tdg.compute_refinables();
+        for task in self.domain.compound_tasks.iter() {
+            if !refinables.contains(task.name) {
                 warnings.push(WarningType::NoPrimitiveRefinement(WarningInfo {
                     symbol: task.name.to_string(),
                     position: task.name_pos,
diff --git a/src/semantic_analyzer/tdg.rs b/src/semantic_analyzer/tdg.rs
index 9e64424..373c8a1 100644
--- a/src/semantic_analyzer/tdg.rs
+++ b/src/semantic_analyzer/tdg.rs
@@ -135,6 +135,34 @@ impl<'a> TDG<'a> {
         }
     }
 
+    // tasks that can be refined to a (potentially empty) sequence of primitive tasks
+    pub fn compute_refinables(&self) -> HashSet<&'a str> {
+        let mut refinables: HashSet<usize> = self
+            .tasks
+            .iter()
+            .enumerate()
+            .filter_map(|(index, (_, task_type))| match task_type {
+                TaskType::Primitive => Some(index),
+                TaskType::Compound => None,
+            })
+            .collect();
+        let mut changed = true;
+        while changed {
+            changed = false;
+            for (task, methods) in self.edges_from_tasks.iter() {
+                if !refinables.contains(task)
+                    && methods
+                        .iter()
+                        .any(|method| self.edges_to_tasks[method].is_subset(&refinables))
+                {
+                    refinables.insert(*task);
+                    changed = true;
+                }
+            }
+        }
+        refinables.iter().map(|index| self.tasks[*index].0).collect()
+    }
+
     pub fn get_recursion_type(&self, nullable_symbols: &HashSet<&'a str>) -> RecursionType {
         let nullables: HashSet<usize> = nullable_symbols
             .iter()
-- 
2.43.0


From f218e9f3fadce8ae4a6e4b4eb6e9af64ce1a3160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:33 +0000
Subject: [PATCH 27/36] fix: the keys of the JSON output appear in the same
 order in every run

---
 src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 05d8b40..c9cb49f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -6,7 +6,7 @@ mod syntactic_analyzer;
 mod language_server;
 pub use language_server::RequestHandler;
 
-use std::collections::HashMap;
+use std::collections::{BTreeMap, HashMap};
 
 use crate::lexical_analyzer::TokenPosition;
 use lexical_analyzer::LexicalAnalyzer;
@@ -89,7 +89,7 @@ impl HDDLAnalyzer {
                     let problem_ast = problem_parser.parse_document()?;
                     match problem_ast {
                         AbstractSyntaxTree::Problem(p) => {
-                            let root = HashMap::from(
+                            let root = BTreeMap::from(
                                 [
                                     ("domain", AbstractSyntaxTree::Domain(d)),
                                     ("problem", AbstractSyntaxTree::Problem(p))
@@ -102,7 +102,7 @@ impl HDDLAnalyzer {
                     }
                 }
                 None => {
-                    let root = HashMap::from(
+                    let root = BTreeMap::from(
                         [
                             ("domain", AbstractSyntaxTree::Domain(d)),
                         ]
-- 
2.43.0


From c7eacffa1d4de55a4766e4e98dfc99c5a41110d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:36 +0000
Subject: [PATCH 28/36] fix: the reported cycle and the order of nullable tasks
 are the same in every run

---
 src/lib.rs                   |  7 ++++++-
 src/semantic_analyzer/tdg.rs | 16 ++++++++--------
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index c9cb49f..57b59d9 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -66,7 +66,12 @@ impl HDDLAnalyzer {
                 let recursion_type = tdg.get_recursion_type(&nullables);
                 Ok(MetaData {
                     recursion: recursion_type,
-                    nullables: nullables.iter().map(|x| x.to_string()).collect(),
+                    nullables: d
+                        .compound_tasks
+                        .iter()
+                        .filter(|x| nullables.contains(x.name))
+                        .map(|x| x.name.to_string())
+                        .collect(),
                     domain_name: String::new(),
                     n_actions: d.actions.len() as u32,
                     n_tasks: d.compound_tasks.len() as u32,
diff --git a/src/semantic_analyzer/tdg.rs b/src/semantic_analyzer/tdg.rs
index 373c8a1..0f3f55f 100644
--- a/src/semantic_analyzer/tdg.rs
+++ b/src/semantic_analyzer/tdg.rs
@@ -1,12 +1,12 @@
-use std::collections::{HashMap, HashSet, VecDeque};
+use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque};
 
 use super::*;
 
 pub struct TDG<'a> {
     tasks: Vec<(&'a str, TaskType)>,
     methods: Vec<(&'a Symbol<'a>, HTN<'a>)>,
-    edges_from_tasks: HashMap<usize, HashSet<usize>>,
-    edges_to_tasks: HashMap<usize, HashSet<usize>>,
+    edges_from_tasks: BTreeMap<usize, BTreeSet<usize>>,
+    edges_to_tasks: BTreeMap<usize, BTreeSet<usize>>,
 }
 
 impl<'a> TDG<'a> {
@@ -22,14 +22,14 @@ impl<'a> TDG<'a> {
         tasks.extend(domain.actions.iter().map(|x| (x.name, TaskType::Primitive)));
 
         // edges
-        let mut to_methods = HashMap::new();
-        let mut to_tasks = HashMap::new();
+        let mut to_methods = BTreeMap::new();
+        let mut to_tasks = BTreeMap::new();
 
         // compute index of tasks and methods for efficiency
         let mut task_indices = HashMap::new();
         for (index, (task, _)) in tasks.iter().enumerate() {
             task_indices.insert(*task, index);
-            to_methods.insert(index, HashSet::new());
+            to_methods.insert(index, BTreeSet::new());
         }
 
         let mut methods = vec![];
@@ -49,7 +49,7 @@ impl<'a> TDG<'a> {
 
         // collect "method to task" edges
         for (method_index, method) in methods.iter().enumerate() {
-            let tasks: HashSet<usize> = method
+            let tasks: BTreeSet<usize> = method
                 .1
                 .subtasks
                 .iter()
@@ -153,7 +153,7 @@ impl<'a> TDG<'a> {
                 if !refinables.contains(task)
                     && methods
                         .iter()
-                        .any(|method| self.edges_to_tasks[method].is_subset(&refinables))
+                        .any(|method| self.edges_to_tasks[method].iter().all(|x| refinables.contains(x)))
                 {
                     refinables.insert(*task);
                     changed = true;
-- 
2.43.0


From 457a57cb4ea34ae19af2c269dede8cf0241b1fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:37 +0000
Subject: [PATCH 29/36] fix: diagnostics of duplicate definitions no longer
 panic on an invalid placeholder URI

---
 src/language_server/diagnostic_utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/language_server/diagnostic_utils.rs b/src/language_server/diagnostic_utils.rs
index 2f41d4e..d9c84c0 100644
--- a/src/language_server/diagnostic_utils.rs
+++ b/src/language_server/diagnostic_utils.rs
@@ -200,7 +200,7 @@ impl From<ParsingError> for Diagnostic {
                                 DiagnosticRelatedInformation {
                                     location: Location {
                                         // TODO: fix the dummy URI
-                                        uri: Url::parse("//").unwrap(),
+                                        uri: Url::parse("file:///").unwrap(),
                                         range: Range {
                                             start: Position { line: duplicate.first_pos.line - 1, character: 0 },
                                             end: Position { line: duplicate.first_pos.line, character: 0 }
-- 
2.43.0


From e783f9f7a42acb4b20edc007000efa5ab554c933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:40 +0000
Subject: [PATCH 30/36] fix: the last of several full-text changes in a
 notification is the one that is kept

---
 src/language_server/request_handler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/language_server/request_handler.rs b/src/language_server/request_handler.rs
index 37371c6..e3e3698 100644
--- a/src/language_server/request_handler.rs
+++ b/src/language_server/request_handler.rs
@@ -84,7 +84,7 @@ impl LanguageServer for RequestHandler {
     async fn did_change(&self, params: DidChangeTextDocumentParams) {
         let uri = params.text_document.uri;
         // TODO: add support for incremental change
-        if let Some(new_text) = params.content_changes.into_iter().next() {
+        if let Some(new_text) = params.content_changes.into_iter().last() {
             self.sync(uri, new_text.text.into_bytes()).await
         }
     }
-- 
2.43.0


From 0b27ed1605237e4737bb7653aa9f424667c232f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:42 +0000
Subject: [PATCH 31/36] fix: saving a document reads the decoded file path and
 survives an unreadable file

---
 src/language_server/request_handler.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/language_server/request_handler.rs b/src/language_server/request_handler.rs
index e3e3698..1f445b9 100644
--- a/src/language_server/request_handler.rs
+++ b/src/language_server/request_handler.rs
@@ -73,9 +73,16 @@ impl LanguageServer for RequestHandler {
         // get the saved file content
         let text = match params.text {
             Some(content) => content.into_bytes(),
-            None => tokio::fs::read(params.text_document.uri.path())
-                .await
-                .unwrap(),
+            None => {
+                let Ok(file_path) = params.text_document.uri.to_file_path() else {
+                    return;
+                };
+                match tokio::fs::read(file_path).await {
+                    Ok(content) => content,
+                    // keep the synced content if the file is not readable
+                    Err(_) => return,
+                }
+            }
         };
         // sync the file
         self.sync(params.text_document.uri, text).await;
-- 
2.43.0


From 5a5eade62aa4c59350341106c4bf6bf22d99cac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:44 +0000
Subject: [PATCH 32/36] fix: diagnosing a document outside of the file system,
 or next to unreadable files, does not crash the server

---
 src/language_server/request_handler.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/language_server/request_handler.rs b/src/language_server/request_handler.rs
index 1f445b9..4fa2300 100644
--- a/src/language_server/request_handler.rs
+++ b/src/language_server/request_handler.rs
@@ -105,7 +105,6 @@ impl LanguageServer for RequestHandler {
                 self.client
                     .log_message(MessageType::LOG, "Diagnostic Request Recieved.")
                     .await;
-                let file_path = params.text_document.uri.to_file_path().unwrap();
                 match classify_file(document) {
                     FileVariant::Domain => {
                         self.client
@@ -121,12 +120,22 @@ impl LanguageServer for RequestHandler {
                         return Ok(diagnosis);
                     }
                     FileVariant::Problem => {
-                        let root_folder = file_path.parent().unwrap();
-                        let mut files = tokio::fs::read_dir(root_folder).await.unwrap();
+                        // a document that is not in the file system has no domain next to it
+                        let Ok(file_path) = params.text_document.uri.to_file_path() else {
+                            return Ok(diagnose_problem(None, document));
+                        };
+                        let Some(root_folder) = file_path.parent() else {
+                            return Ok(diagnose_problem(None, document));
+                        };
+                        let Ok(mut files) = tokio::fs::read_dir(root_folder).await else {
+                            return Ok(diagnose_problem(None, document));
+                        };
                         while let Ok(Some(entry)) = files.next_entry().await {
                             match entry.path().extension() {
                                 Some(extension) if (extension == "hddl" || extension == "pddl") => {
-                                    let content = tokio::fs::read(entry.path()).await.unwrap();
+                                    let Ok(content) = tokio::fs::read(entry.path()).await else {
+                                        continue;
+                                    };
                                     match classify_file(&content) {
                                         FileVariant::Domain => {
                                             self.client
@@ -134,7 +143,7 @@ impl LanguageServer for RequestHandler {
                                                     MessageType::LOG,
                                                     format!(
                                                         "{} is the domain for {}. Attempting to diagnose.",
-                                                        root_folder.to_str().unwrap(),
+                                                        root_folder.display(),
                                                         params.text_document.uri.to_string()
                                                     ),
                                                 ).await;
@@ -154,7 +163,7 @@ impl LanguageServer for RequestHandler {
                                 MessageType::LOG,
                                 format!(
                                     "Could not find the domain in {}",
-                                    root_folder.to_str().unwrap()
+                                    root_folder.display()
                                 ),
                             )
                             .await;
-- 
2.43.0


From c2ad7a600855df12b68e5eeac8f85e1894c4872d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:45 +0000
Subject: [PATCH 33/36] fix: reading a saved document from the disk no longer
 overwrites a change that was made after saving

---
 src/language_server/request_handler.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/language_server/request_handler.rs b/src/language_server/request_handler.rs
index 4fa2300..d45868c 100644
--- a/src/language_server/request_handler.rs
+++ b/src/language_server/request_handler.rs
@@ -77,11 +77,13 @@ impl LanguageServer for RequestHandler {
                 let Ok(file_path) = params.text_document.uri.to_file_path() else {
                     return;
                 };
-                match tokio::fs::read(file_path).await {
-                    Ok(content) => content,
-                    // keep the synced content if the file is not readable
-                    Err(_) => return,
+                // locked while reading, so that changes made after saving are not overwritten
+                let mut documents = self.documents.write().await;
+                // keep the synced content if the file is not readable
+                if let Ok(content) = tokio::fs::read(file_path).await {
+                    documents.insert(params.text_document.uri, content);
                 }
+                return;
             }
         };
         // sync the file
-- 
2.43.0


From 55c7ae5a5b47f1df4e83768716a24b12c3d46773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:29 +0000
Subject: [PATCH 34/36] fix: thousands of consecutive comment lines no longer
 overflow the stack

---
 src/lexical_analyzer/tokenizer.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/lexical_analyzer/tokenizer.rs b/src/lexical_analyzer/tokenizer.rs
index b6377e2..baa0ba9 100644
--- a/src/lexical_analyzer/tokenizer.rs
+++ b/src/lexical_analyzer/tokenizer.rs
@@ -126,14 +126,6 @@ impl<'a> LexicalAnalyzer<'a> {
                         }),
                     }
                 }
-                // Comment
-                ';' => {
-                    // a comment extends to the end of the line, or to the end of the file
-                    while !matches!(self.peek_next_char(), None | Some('\n')) {
-                        self.cursor.set(self.cursor.get() + 1);
-                    }
-                    return self.parse(peek);
-                }
                 // Other
                 _ => {
                     let mut init_cur_pos = self.cursor.get() - 1;
@@ -232,6 +224,13 @@ impl<'a> LexicalAnalyzer<'a> {
     fn skip_whitespaces(&self) {
         while self.cursor.get() != self.program.len() {
             let current = self.program[self.cursor.get()] as char;
+            if current == ';' {
+                // a comment extends to the end of the line, or to the end of the file
+                while !matches!(self.peek_next_char(), None | Some('\n')) {
+                    self.cursor.set(self.cursor.get() + 1);
+                }
+                continue;
+            }
             if !LexicalAnalyzer::is_whitespace(&current) {
                 break;
             } else if current == '\n' {
-- 
2.43.0


From 18056dffcf7971fd3641fbf9cd04ed898cee923f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:53 +0000
Subject: [PATCH 35/36] fix: a comment that directly follows a word is no
 longer read as part of the word

---
 src/lexical_analyzer/tokenizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexical_analyzer/tokenizer.rs b/src/lexical_analyzer/tokenizer.rs
index baa0ba9..ed480f8 100644
--- a/src/lexical_analyzer/tokenizer.rs
+++ b/src/lexical_analyzer/tokenizer.rs
@@ -184,7 +184,7 @@ impl<'a> LexicalAnalyzer<'a> {
         let mut is_invalid = false;
         let mut is_valid_character = |c| match c {
             '_' | '-' => true,
-            ')' | '(' => false,
+            ')' | '(' | ';' => false,
             _ => {
                 if LexicalAnalyzer::is_whitespace(&c) {
                     false
-- 
2.43.0


From 968b0327da4984a3a78c479a07af1dcdbee72a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:57 +0000
Subject: [PATCH 36/36] fix: a decimal number beyond the range of a double is
 reported as invalid instead of becoming null in the JSON

---
 src/lexical_analyzer/tokenizer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lexical_analyzer/tokenizer.rs b/src/lexical_analyzer/tokenizer.rs
index ed480f8..97b1ce0 100644
--- a/src/lexical_analyzer/tokenizer.rs
+++ b/src/lexical_analyzer/tokenizer.rs
@@ -259,8 +259,8 @@ impl<'a> LexicalAnalyzer<'a> {
         let lexeme = from_utf8(&self.program[init_cur_pos..cursor_pos]).unwrap();
         if seen_dot {
             match lexeme.parse::<f64>() {
-                Ok(value) => Ok((NumberType::Real(value), cursor_pos)),
-                Err(_) => Err(LexicalError {
+                Ok(value) if value.is_finite() => Ok((NumberType::Real(value), cursor_pos)),
+                _ => Err(LexicalError {
                     error_type: LexicalErrorType::InvalidRealNumber,
                     lexeme: lexeme.to_string(),
                     position: self.last_token_pos.get(),
-- 
2.43.0

