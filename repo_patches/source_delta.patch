From 6dc96896709e42d03f4c9f8bd61c111586e8c7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:10 +0000
Subject: [PATCH 01/37] fix: match a word form in any letter case, also when
 the grammar writes it with capitals

---
 richard/processor/parser/earley/EarleyParser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/richard/processor/parser/earley/EarleyParser.py b/richard/processor/parser/earley/EarleyParser.py
index bad3c35..82f1e9f 100644
--- a/richard/processor/parser/earley/EarleyParser.py
+++ b/richard/processor/parser/earley/EarleyParser.py
@@ -205,6 +205,6 @@ class EarleyParser:
 
 
     def read_word(self, text: str, start_index: int, word: str):
-        part = text[start_index:].lower()
-        return part[:len(word)] == word
+        part = text[start_index:start_index + len(word)]
+        return part.lower() == word.lower()
 
-- 
2.43.0


From 9cbe5771c1ae5814a1eb24beb3ba83ff712b6781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:37 +0000
Subject: [PATCH 02/37] fix: only accept a part of a regexp match that matches
 the regexp itself

---
 richard/processor/parser/earley/EarleyParser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/richard/processor/parser/earley/EarleyParser.py b/richard/processor/parser/earley/EarleyParser.py
index 82f1e9f..1ef90fc 100644
--- a/richard/processor/parser/earley/EarleyParser.py
+++ b/richard/processor/parser/earley/EarleyParser.py
@@ -129,8 +129,10 @@ class EarleyParser:
             if word is not None:
                 for i in range(1, len(word)+1):
                     sub_word = word[0:i]
+                    # a shorter version must match the regexp as well
+                    if i < len(word) and not re.fullmatch(next_consequent.predicate, sub_word):
+                        continue
                     sem = self.create_semantic_function_for_scanned_state(sub_word)
-# todo check if match regexp
                     self.add_scanned_state(chart, state, sub_word, sem)
 
         # match a string constant over multiple tokens
-- 
2.43.0


From 458ed44dcd6cd3bd01988f5f99ce9dc185cfdf1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:12 +0000
Subject: [PATCH 03/37] fix: an empty or not understood sentence can be stored
 as output

---
 richard/module/BasicOutputBuffer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/richard/module/BasicOutputBuffer.py b/richard/module/BasicOutputBuffer.py
index 75eea77..5c37b13 100644
--- a/richard/module/BasicOutputBuffer.py
+++ b/richard/module/BasicOutputBuffer.py
@@ -15,6 +15,8 @@ class BasicOutputBuffer(SimpleMemoryModule):
         self.add_relation(Relation("output_list", arguments=["elements"]))
         self.add_relation(Relation("output_name_not_found", arguments=["name"]))
         self.add_relation(Relation("output_unknown_word", arguments=["word"]))
+        self.add_relation(Relation("output_no_sentence", arguments=[]))
+        self.add_relation(Relation("output_not_understood", arguments=[]))
 
 
     def clear(self):
-- 
2.43.0


From 2689be8fe1e96c7080b89e1a26d21197d88837a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:28 +0000
Subject: [PATCH 04/37] fix: do not predict category rules for a word form or
 regexp with the name of a category

---
 richard/processor/parser/earley/EarleyParser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/richard/processor/parser/earley/EarleyParser.py b/richard/processor/parser/earley/EarleyParser.py
index 1ef90fc..485f8f3 100644
--- a/richard/processor/parser/earley/EarleyParser.py
+++ b/richard/processor/parser/earley/EarleyParser.py
@@ -107,6 +107,10 @@ class EarleyParser:
         next_consequent_variables = state.rule.consequents[consequentIndex].arguments
         end_char_index = state.end_char_index
 
+        # a word or a regexp can have the name of a category, but it is not a category
+        if nextConsequent.position_type != POS_TYPE_RELATION:
+            return
+
         for rule in grammar_rules.find_rules(nextConsequent.predicate, len(next_consequent_variables)) :
 
             predicted_state = ChartState(rule, 1, end_char_index, end_char_index)
-- 
2.43.0


From 26940d635393d26902a45f7b1b7fe95240ae838d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:28 +0000
Subject: [PATCH 05/37] fix: only advance a state with a completed constituent
 of the same arity

---
 richard/processor/parser/earley/EarleyParser.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/richard/processor/parser/earley/EarleyParser.py b/richard/processor/parser/earley/EarleyParser.py
index 485f8f3..756f4ec 100644
--- a/richard/processor/parser/earley/EarleyParser.py
+++ b/richard/processor/parser/earley/EarleyParser.py
@@ -176,7 +176,7 @@ class EarleyParser:
         - now proceed all other states in the chart that are waiting for an NP at the current position
         """
 
-        completed_antecedent = completed_state.rule.antecedent.predicate
+        completed_antecedent = completed_state.rule.antecedent
 
         # index the completed state for fast lookup in the tree extraction phase
         chart.index_completed_state(completed_state)
@@ -186,11 +186,8 @@ class EarleyParser:
             dot_position = charted_state.dot_position
             rule = charted_state.rule
 
-            if (dot_position > len(rule.consequents)) or (rule.consequents[dot_position-1].predicate != completed_antecedent):
-                continue
-
-            # check if the types match
-            if charted_state.rule.consequents[dot_position-1].position_type != completed_state.rule.antecedent.position_type:
+            # check if predicate, number of arguments and type match
+            if (dot_position > len(rule.consequents)) or not rule.consequents[dot_position-1].equals(completed_antecedent):
                 continue
 
             # create a new state that is a dot-advancement of an older state
-- 
2.43.0


From 6f7fb3a4f51e1916ef13c16c1cc10d3bce33a096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:34 +0000
Subject: [PATCH 06/37] fix: leave out optional words together with exactly the
 separator that attaches them

---
 richard/entity/GrammarRules.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/richard/entity/GrammarRules.py b/richard/entity/GrammarRules.py
index e7d6fb7..9313635 100644
--- a/richard/entity/GrammarRules.py
+++ b/richard/entity/GrammarRules.py
@@ -61,14 +61,21 @@ class GrammarRules:
 
         skip = 1
 
+        # nothing but optional words so far
+        leading = all(c.optional for c in rule.consequents[:index] if not c.separator)
+
         # 'the'?_...
-        if index == 0 and consequent.optional and not consequent.separator and look_ahead_consequent and look_ahead_consequent.separator:
+        if leading and consequent.optional and not consequent.separator and look_ahead_consequent and look_ahead_consequent.separator:
             new_variants = [v + [consequent, look_ahead_consequent] for v in variants]
+            if look_ahead_consequent.optional:
+                new_variants.extend([v + [consequent] for v in variants])
             new_variants.extend(variants)
             skip = 2
         # ... _'the'? ...
         elif consequent.separator and look_ahead_consequent and look_ahead_consequent.optional and not look_ahead_consequent.separator:
             new_variants = [v + [consequent, look_ahead_consequent] for v in variants]
+            if consequent.optional:
+                new_variants.extend([v + [look_ahead_consequent] for v in variants])
             new_variants.extend(variants)
             skip = 2
         # ... ~ ...
-- 
2.43.0


From ecb3d3c4f5e44e2572ad0fbb4eb69f3a937bf18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:47 +0000
Subject: [PATCH 07/37] fix: keep the executable atoms of child nodes

---
 richard/processor/semantic_composer/SemanticComposer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/richard/processor/semantic_composer/SemanticComposer.py b/richard/processor/semantic_composer/SemanticComposer.py
index f672cf7..0335204 100644
--- a/richard/processor/semantic_composer/SemanticComposer.py
+++ b/richard/processor/semantic_composer/SemanticComposer.py
@@ -90,7 +90,7 @@ class SemanticComposer(SomeProcessor):
 
         # create the executable atoms of this node by executing its function, passing the values of its children as arguments
         if node.rule.exec:
-            executable = node.rule.exec(*child_semantics)
+            executable.extend(node.rule.exec(*child_semantics))
 
         if callable(node.rule.dialog):
             inferences.extend(node.rule.dialog(*child_semantics))
-- 
2.43.0


From 089cac67664d8df94b02aa104e22237857b95ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:05 +0000
Subject: [PATCH 08/37] fix: give free variables in nested semantics,
 templates, dialog and exec their own sentence variables

---
 .../semantic_composer/SemanticComposer.py     | 22 +++++++++++--------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/richard/processor/semantic_composer/SemanticComposer.py b/richard/processor/semantic_composer/SemanticComposer.py
index 0335204..28afd6b 100644
--- a/richard/processor/semantic_composer/SemanticComposer.py
+++ b/richard/processor/semantic_composer/SemanticComposer.py
@@ -97,8 +97,10 @@ class SemanticComposer(SomeProcessor):
         else:
             inferences.extend(node.rule.dialog)
 
-        # extend the map with variables found in the result of the semantics function
+        # extend the map with variables found in the results of the semantics, dialog and exec functions
         self.extend_map_with_semantics(map, semantics)
+        self.extend_map_with_semantics(map, inferences)
+        self.extend_map_with_semantics(map, executable)
 
         # replace the formal parameters in the semantics with the unified variables
         unified_semantics = self.unify_variables(semantics, map)
@@ -127,14 +129,16 @@ class SemanticComposer(SomeProcessor):
         return map
 
 
-    def extend_map_with_semantics(self, map: dict, semantics: list[tuple]):
-        # only lists of atoms for now
-        if isinstance(semantics, list):
-            for atom in semantics:
-                for arg in atom:
-                    # since we're late in the game, don't replace variables that have already been replaced
-                    if isinstance(arg, Variable) and arg.name not in map and not self.variable_generator.isinstance(arg):
-                        map[arg.name] = self.variable_generator.next()
+    def extend_map_with_semantics(self, map: dict, semantics: any):
+        if isinstance(semantics, SemanticTemplate):
+            self.extend_map_with_semantics(map, semantics.body)
+        elif isinstance(semantics, (list, tuple)):
+            for element in semantics:
+                self.extend_map_with_semantics(map, element)
+        elif isinstance(semantics, Variable):
+            # since we're late in the game, don't replace variables that have already been replaced
+            if semantics.name not in map and not self.variable_generator.isinstance(semantics):
+                map[semantics.name] = self.variable_generator.next()
 
 
     def unify_variables(self, semantics: any, map: dict[str, str]) -> any:
-- 
2.43.0


From 6e23c8450daa506b1d597f8dcb006a9673a19980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:15 +0000
Subject: [PATCH 09/37] fix: replace all parameters of a template
 simultaneously

---
 .../parser/helper/grammar_functions.py        | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/richard/processor/parser/helper/grammar_functions.py b/richard/processor/parser/helper/grammar_functions.py
index 24a93b4..7af71a7 100644
--- a/richard/processor/parser/helper/grammar_functions.py
+++ b/richard/processor/parser/helper/grammar_functions.py
@@ -3,23 +3,24 @@ from richard.type import SemanticTemplate
 
 
 def apply(template: SemanticTemplate, *values):
-    replaced = template.body
+    # replace all parameters at the same time, so that a value that contains a parameter itself is left as it is
+    replacements = {}
     for i, value in enumerate(values):
-        token = template.args[i][0]       
-        replaced = replace(replaced, token, value, True)
+        token = template.args[i][0]
+        replacements[token] = value
 
-    return replaced
+    return replace(template.body, replacements, True)
 
 
-def replace(atoms, token, replacement, is_list):
+def replace(atoms, replacements, is_list):
     replaced = []
     for atom in atoms:
-        if atom == token:
-            replaced.extend(replacement)
+        if isinstance(atom, str) and atom in replacements:
+            replaced.extend(replacements[atom])
         elif isinstance(atom, tuple):
-            replaced.append(replace(atom, token, replacement, False))
+            replaced.append(replace(atom, replacements, False))
         elif isinstance(atom, list):
-            replaced.append(replace(atom, token, replacement, True))
+            replaced.append(replace(atom, replacements, True))
         else:
             replaced.append(atom)
 
-- 
2.43.0


From 0b127e1b2c4be595506c1ee08d84a1ca53db78d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:59 +0000
Subject: [PATCH 10/37] fix: keep the variables of an inference rule apart from
 those of atom lists in its arguments

---
 richard/module/InferenceModule.py | 34 +++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/richard/module/InferenceModule.py b/richard/module/InferenceModule.py
index eac8877..4a1e10c 100644
--- a/richard/module/InferenceModule.py
+++ b/richard/module/InferenceModule.py
@@ -49,8 +49,42 @@ class InferenceModule(SomeModule):
         return results
 
 
+    def rename_shared_variables(self, rule: InferenceRule, arguments: list, binding: dict) -> InferenceRule:
+        """
+        An argument may be a list of atoms, and these have variables of their own.
+        Rename the variables of the rule that have the same name as one of these.
+        """
+        nested = set()
+        values = [binding.get(argument.name) if isinstance(argument, Variable) else argument for argument in arguments]
+        while values:
+            value = values.pop()
+            if isinstance(value, (list, tuple)):
+                for name in get_atom_variables(value):
+                    if name not in nested:
+                        nested.add(name)
+                        # the variable may stand for a list of atoms itself
+                        values.append(binding.get(name))
+
+        rule_variables = set(rule.get_all_variables())
+        used = nested | rule_variables | set(binding)
+        renamed = {}
+        for name in sorted(nested & rule_variables):
+            new_name = name + "_"
+            while new_name in used:
+                new_name += "_"
+            used.add(new_name)
+            renamed[name] = Variable(new_name)
+
+        if not renamed:
+            return rule
+
+        return InferenceRule(bind_variables(rule.head, renamed), bind_variables(rule.body, renamed))
+
+
     def solve_rule(self, rule: InferenceRule, arguments: list, solver: SomeSolver, binding: dict):
 
+        rule = self.rename_shared_variables(rule, arguments, binding)
+
         rule_arguments = rule.head[1:]
         # initialize with binding variables that do not affect this rule (but may be used later on)
         rule_binding = {key: value for (key, value) in binding.items() if key not in rule.get_all_variables()}
-- 
2.43.0


From cfafba675dd97033315abdfa9abd582813be8451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:05 +0000
Subject: [PATCH 11/37] fix: keep the categories of the parser itself apart
 from categories of the grammar

---
 richard/core/constants.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/richard/core/constants.py b/richard/core/constants.py
index 90eb0ae..b8b780d 100644
--- a/richard/core/constants.py
+++ b/richard/core/constants.py
@@ -4,8 +4,8 @@ from richard.entity.Variable import Variable
 
 # abstract word categories
 TERMINAL = "terminal"
-GAMMA = "gamma"
-DELTA = "delta"
+GAMMA = "$gamma"
+DELTA = "$delta"
 ROOT_CATEGORY = "s"
 
 # output types
-- 
2.43.0


From 2f1f2c5ece2eeb0e44ff9b31ffff67224ac0450e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:13 +0000
Subject: [PATCH 12/37] fix: parsing a sentence does not make the grammar grow

---
 richard/processor/parser/earley/EarleyParser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/richard/processor/parser/earley/EarleyParser.py b/richard/processor/parser/earley/EarleyParser.py
index 756f4ec..d463d3a 100644
--- a/richard/processor/parser/earley/EarleyParser.py
+++ b/richard/processor/parser/earley/EarleyParser.py
@@ -60,7 +60,11 @@ class EarleyParser:
         # delta(D) -> s(P1, P2)
         # delta(D) -> s(P1, P2, P3)
         # ...
+        present = [len(rule.consequents[0].arguments) for rule in grammar_rules.find_rules(DELTA, 1)]
         for c in grammar_rules.find_argument_counts(ROOT_CATEGORY):
+            # an earlier sentence has added the rule already
+            if c in present:
+                continue
             variables = ["P" + str(j) for j in range(1, c+1)]
             grammar_rules.add_rule(GrammarRule(
                 RuleConstituent(DELTA, ["D"], POS_TYPE_RELATION),
-- 
2.43.0


From 1fbf55ce4ac56ba4c10983338e3c4dccba4fe0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:22 +0000
Subject: [PATCH 13/37] fix: learn_grammar_rule parses its rule as a read rule

---
 richard/module/GrammarModule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/richard/module/GrammarModule.py b/richard/module/GrammarModule.py
index 3a917c2..6b5aeec 100644
--- a/richard/module/GrammarModule.py
+++ b/richard/module/GrammarModule.py
@@ -28,7 +28,7 @@ class GrammarModule(SomeModule):
     def learn_grammar_rule(self, values: list, context: ExecutionContext) -> list[list]:
         simple_rule = values[0]
 
-        rule = SimpleGrammarRulesParser().parse_simple_rule(simple_rule)
+        rule = SimpleGrammarRulesParser().parse_simple_rule(simple_rule, False)
         self.grammar.add_rule(rule)
 
         return [
-- 
2.43.0


From 42780cb382c59e9029184707211fa80c61e275c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:01 +0000
Subject: [PATCH 14/37] fix: a rule file can contain zero and the empty string

---
 richard/module/helper/SimpleInferenceRuleParser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/richard/module/helper/SimpleInferenceRuleParser.py b/richard/module/helper/SimpleInferenceRuleParser.py
index 54995f1..3b56f41 100644
--- a/richard/module/helper/SimpleInferenceRuleParser.py
+++ b/richard/module/helper/SimpleInferenceRuleParser.py
@@ -22,8 +22,8 @@ class SimpleInferenceRuleParser:
             '\)',
             '\d+\.\d+',
             '\d+',
-            "'(?:\\\\'|[^'])+'",
-            '"(?:\\\\"|[^"])+"',
+            "'(?:\\\\'|[^'])*'",
+            '"(?:\\\\"|[^"])*"',
             '[A-Z]\w*',
             '\w+',
             '#.*\n',
@@ -204,7 +204,7 @@ class SimpleInferenceRuleParser:
         while True:
 
             term, new_pos = self.parse_term(tokens, pos)
-            if not term:
+            if term is None:
                 break
             pos = new_pos
             terms.append(term)
-- 
2.43.0


From b6c5034acd1322cfd5d51c8e10774973b36063f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:07 +0000
Subject: [PATCH 15/37] fix: a comment on the last line of a rule file is a
 comment too

---
 richard/module/helper/SimpleInferenceRuleParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/richard/module/helper/SimpleInferenceRuleParser.py b/richard/module/helper/SimpleInferenceRuleParser.py
index 3b56f41..7fab067 100644
--- a/richard/module/helper/SimpleInferenceRuleParser.py
+++ b/richard/module/helper/SimpleInferenceRuleParser.py
@@ -26,7 +26,7 @@ class SimpleInferenceRuleParser:
             '"(?:\\\\"|[^"])*"',
             '[A-Z]\w*',
             '\w+',
-            '#.*\n',
+            '#.*',
         ]) + ")")
         self.re_identifier = re.compile("^\w+$")
         self.re_variable = re.compile("^[A-Z]\w*$")
-- 
2.43.0


From af348fa7a2076aa83b0729a4d3d5a457975cccbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:13 +0000
Subject: [PATCH 16/37] fix: reject characters in a rule file that are not part
 of the notation

---
 richard/module/helper/SimpleInferenceRuleParser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/richard/module/helper/SimpleInferenceRuleParser.py b/richard/module/helper/SimpleInferenceRuleParser.py
index 7fab067..8f0402d 100644
--- a/richard/module/helper/SimpleInferenceRuleParser.py
+++ b/richard/module/helper/SimpleInferenceRuleParser.py
@@ -27,6 +27,7 @@ class SimpleInferenceRuleParser:
             '[A-Z]\w*',
             '\w+',
             '#.*',
+            '\S',
         ]) + ")")
         self.re_identifier = re.compile("^\w+$")
         self.re_variable = re.compile("^[A-Z]\w*$")
-- 
2.43.0


From ec555531993bef47c649ffcabb604ed5baffc2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:20 +0000
Subject: [PATCH 17/37] fix: reject a rule file that ends in the middle of an
 atom

---
 richard/module/helper/SimpleInferenceRuleParser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/richard/module/helper/SimpleInferenceRuleParser.py b/richard/module/helper/SimpleInferenceRuleParser.py
index 8f0402d..90a050a 100644
--- a/richard/module/helper/SimpleInferenceRuleParser.py
+++ b/richard/module/helper/SimpleInferenceRuleParser.py
@@ -238,6 +238,9 @@ class SimpleInferenceRuleParser:
 
     def parse_term(self, tokens: list[str], pos: int):
         token, new_pos = self.parse_token(tokens, pos)
+        if token is None:
+            return None, new_pos
+
         if token[0] == "'":
             pos = new_pos
             return token[1:-1].replace("\\'", "'"), pos
-- 
2.43.0


From fe9b7dc084244a81c787ecac4c9eea1627fa9dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:41 +0000
Subject: [PATCH 18/37] fix: a quote that is not closed in a rule file does not
 start a string

---
 richard/module/helper/SimpleInferenceRuleParser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/richard/module/helper/SimpleInferenceRuleParser.py b/richard/module/helper/SimpleInferenceRuleParser.py
index 90a050a..7d7f0d0 100644
--- a/richard/module/helper/SimpleInferenceRuleParser.py
+++ b/richard/module/helper/SimpleInferenceRuleParser.py
@@ -241,6 +241,10 @@ class SimpleInferenceRuleParser:
         if token is None:
             return None, new_pos
 
+        # a quote that is not closed
+        if token == "'" or token == '"':
+            return None, new_pos
+
         if token[0] == "'":
             pos = new_pos
             return token[1:-1].replace("\\'", "'"), pos
-- 
2.43.0


From ecd1138462c1ca3447623e9254d095b3aee35299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:46 +0000
Subject: [PATCH 19/37] fix: a result that is already bound must agree with the
 computed number

---
 richard/module/CoreModule.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/richard/module/CoreModule.py b/richard/module/CoreModule.py
index 5c8daa1..0e476b9 100644
--- a/richard/module/CoreModule.py
+++ b/richard/module/CoreModule.py
@@ -103,6 +103,9 @@ class CoreModule(SomeModule):
         if e2 is None:
             raise Exception("* second argument is unbound")
 
+        if values[2] is not None and values[2] != e3:
+            return []
+
         return [
             [None, None, e3]
         ]
@@ -117,6 +120,9 @@ class CoreModule(SomeModule):
         results = context.solver.solve(body, context.binding)
         count = len(results)
 
+        if values[0] is not None and values[0] != count:
+            return []
+
         return [
             [count, None]
         ]
@@ -134,6 +140,9 @@ class CoreModule(SomeModule):
         for result in results:
             s += result[element_var.name]
 
+        if values[0] is not None and values[0] != s:
+            return []
+
         return [
             [s, None, None]
         ]
@@ -209,6 +218,9 @@ class CoreModule(SomeModule):
 
         average = s / n
 
+        if values[0] is not None and values[0] != average:
+            return []
+
         return [
             [average, None, None]
         ]
@@ -229,6 +241,9 @@ class CoreModule(SomeModule):
 
         percentage = (len(nominator_results) / len(denominator_results)) * 100.0
 
+        if values[0] is not None and values[0] != percentage:
+            return []
+
         return [
             [percentage, None, None]
         ]
-- 
2.43.0


From abd6b6c7540cfc695fe36980b10a3c4c64d8523b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:34 +0000
Subject: [PATCH 20/37] fix: the optimizer does not bind a variable before the
 atom that must find it unbound

---
 .../semantic_composer/optimizer/SortByCost.py | 45 ++++++++++++++-----
 1 file changed, 34 insertions(+), 11 deletions(-)

diff --git a/richard/processor/semantic_composer/optimizer/SortByCost.py b/richard/processor/semantic_composer/optimizer/SortByCost.py
index f441cc7..d524e13 100644
--- a/richard/processor/semantic_composer/optimizer/SortByCost.py
+++ b/richard/processor/semantic_composer/optimizer/SortByCost.py
@@ -13,28 +13,51 @@ class SortByCost:
         if len(composition) == 0:
             return []
 
-        result = self.sort_rest([], composition, model, bound_variables)
+        own_variables = self.collect_own_variables(composition, bound_variables)
+        todo = list(zip(composition, own_variables))
+        result = self.sort_rest([], todo, model, bound_variables)
 
         return result
 
 
+    def collect_own_variables(self, composition: list[tuple], bound_variables: set[str]) -> list[set[str]]:
+        """
+        An atom like `arg_max` solves its nested atoms for variables that are not bound yet.
+        Returns, for each atom, the variables that must not be bound before this atom
+        """
+        known = set(bound_variables)
+        own_variables = []
+        for atom in composition:
+            if any(isinstance(arg, list) for arg in atom):
+                own_variables.append(set(get_atom_variables(atom)) - known)
+            else:
+                own_variables.append(set())
+            known |= {arg.name for arg in atom if isinstance(arg, Variable)}
+
+        return own_variables
+
+
     def sort_rest(self, done: list[tuple], todo: list[tuple], model: Model, bound_variables: set[str]) -> list[tuple]:
 
         if len(todo) == 0:
             return done
 
-        results = []
-        for atom in todo:
-            cost = self.calculate_cost(atom, bound_variables, model)
-            results.append({'atom': atom, 'cost': cost})
-
-        results.sort(key=lambda result: result['cost'])
-        sorted = [result['atom'] for result in results]
-
-        sorted_first_atom = self.sort_arguments(sorted[0], model, bound_variables)
+        first = None
+        lowest_cost = None
+        reserved = set()
+        for i, (atom, own_variables) in enumerate(todo):
+            # an atom can't be placed before an atom that needs the same variable to be unbound
+            if not reserved & set(get_atom_variables(atom)):
+                cost = self.calculate_cost(atom, bound_variables, model)
+                if first is None or cost < lowest_cost:
+                    first = i
+                    lowest_cost = cost
+            reserved |= own_variables
+
+        sorted_first_atom = self.sort_arguments(todo[first][0], model, bound_variables)
         bound_variables = bound_variables | set(get_atom_variables(sorted_first_atom))
 
-        return self.sort_rest(done + [sorted_first_atom], sorted[1:], model, bound_variables)
+        return self.sort_rest(done + [sorted_first_atom], todo[:first] + todo[first + 1:], model, bound_variables)
 
 
     def sort_arguments(self, atom: tuple, model: Model, bound_variables: set[str]) -> tuple:
-- 
2.43.0


From 4008ab4df036c72bbef9c2f55d0187be1d5ae50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:41 +0000
Subject: [PATCH 21/37] fix: the optimizer does not place a disjunction before
 the atoms that bind its variables

---
 richard/processor/semantic_composer/optimizer/SortByCost.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/richard/processor/semantic_composer/optimizer/SortByCost.py b/richard/processor/semantic_composer/optimizer/SortByCost.py
index d524e13..52365e8 100644
--- a/richard/processor/semantic_composer/optimizer/SortByCost.py
+++ b/richard/processor/semantic_composer/optimizer/SortByCost.py
@@ -1,6 +1,6 @@
 from richard.core.Model import Model
 from richard.core.atoms import get_atom_variables
-from richard.core.constants import IGNORED, INFINITE
+from richard.core.constants import DISJUNCTION, IGNORED, INFINITE
 from richard.entity.Variable import Variable
 
 
@@ -76,6 +76,10 @@ class SortByCost:
 
     def calculate_cost(self, atom: tuple, bound_variables: set, model: Model):
         predicate = atom[0]
+        # which alternative is taken depends on the variables that are bound
+        if predicate == DISJUNCTION:
+            return INFINITE
+
         relations = model.find_relations(predicate)
         if len(relations) == 0:
             return 0
-- 
2.43.0


From 0de22b825c265b8e35e7a116a1f1fcc4cc79ba84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:47 +0000
Subject: [PATCH 22/37] fix: an argument size of zero does not stop the
 optimizer

---
 richard/processor/semantic_composer/optimizer/SortByCost.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/richard/processor/semantic_composer/optimizer/SortByCost.py b/richard/processor/semantic_composer/optimizer/SortByCost.py
index 52365e8..de6b4aa 100644
--- a/richard/processor/semantic_composer/optimizer/SortByCost.py
+++ b/richard/processor/semantic_composer/optimizer/SortByCost.py
@@ -98,7 +98,8 @@ class SortByCost:
 
                 for argument, argument_size in zip(arguments, relation.argument_sizes):
 
-                    if argument_size == IGNORED:
+                    # a size of zero says that there are no values
+                    if argument_size == IGNORED or argument_size == 0:
                         pass
                     elif isinstance(argument, Variable):
                         if argument.name in bound_variables:
-- 
2.43.0


From c642cbe408a9b862fb52f8e4bd3ea25860f3542e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:09 +0000
Subject: [PATCH 23/37] fix: FindOne reports the first error, as documented

---
 richard/block/FindOne.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/richard/block/FindOne.py b/richard/block/FindOne.py
index 38ca12b..8709cad 100644
--- a/richard/block/FindOne.py
+++ b/richard/block/FindOne.py
@@ -27,7 +27,7 @@ class FindOne(ControlBlock):
             if next_block_result.error_type == "":
                # first successful product found: quit
                return BlockResult('')
-            else:
+            elif error_type == "":
                 error_type = next_block_result.error_type
                 error_args = next_block_result.error_args
 
-- 
2.43.0


From 026d0dd55d2b8b81aff632d9cb45854f648a8bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:40 +0000
Subject: [PATCH 24/37] fix: the generator skips rules whose condition fails,
 and keeps the binding of the rule it picks

---
 richard/core/BasicGenerator.py | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/richard/core/BasicGenerator.py b/richard/core/BasicGenerator.py
index 7444237..3bda257 100644
--- a/richard/core/BasicGenerator.py
+++ b/richard/core/BasicGenerator.py
@@ -102,35 +102,32 @@ class BasicGenerator(SomeGenerator):
             # if: [('output_type', 'declarative'), ('output_subject', E1, E2)]
 
             # rule_antecedent_variable = rule.antecedent.arguments[0]
-            binding = {}
+            rule_binding = {}
             for rule_antecedent_variable, antecedent_value in zip(rule.antecedent.arguments, antecedent_values):
-                binding[rule_antecedent_variable] = antecedent_value
+                rule_binding[rule_antecedent_variable] = antecedent_value
 
             # start the binding with the antecedent variable (in the example: E1)
             # if antecedent_values is not None:
             #     binding[rule_antecedent_variable] = antecedent_values
 
-            if not rule.sem:
-                # no condition
-                result_rule = rule
-                found = True
-
-            else:
+            if rule.sem:
 
                 # match the condition
                 # will bind the E2 in the example ([('output_type', 'declarative'), ('output_subject', E1, E2)])
-                match_bindings = self.solver.solve(rule.sem, binding)
+                match_bindings = self.solver.solve(rule.sem, rule_binding)
+
+                if len(match_bindings) == 0:
+                    continue
 
-                if len(match_bindings) > 0:
-                    binding = match_bindings[0]
-                    result_rule = rule
-                    found = True
+                rule_binding = match_bindings[0]
 
+            result_rule = rule
+            binding = rule_binding
+            found = True
 
-            if found:
-                # make sure the same rule is not executed again and again
-                if rule.hash not in used_rules:
-                    break
+            # make sure the same rule is not executed again and again
+            if rule.hash not in used_rules:
+                break
 
         return result_rule, binding, found
 
-- 
2.43.0


From cb0e18e3ac88706f48dcf02cfd56eb818a58ec55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:40 +0000
Subject: [PATCH 25/37] fix: the output buffer is cleared also when generating
 the output fails

---
 richard/core/BasicGenerator.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/richard/core/BasicGenerator.py b/richard/core/BasicGenerator.py
index 3bda257..5ae57b9 100644
--- a/richard/core/BasicGenerator.py
+++ b/richard/core/BasicGenerator.py
@@ -21,9 +21,10 @@ class BasicGenerator(SomeGenerator):
 
 
     def generate_output(self):
-        output = self.generate_node([], "s", [], False)
-        self.output_buffer.clear()
-        return output
+        try:
+            return self.generate_node([], "s", [], False)
+        finally:
+            self.output_buffer.clear()
 
 
     def generate_node(self, used_rules: list[int], antecedent_cat: str, antecedent_values: list[any], optional: bool) -> list[str]:
-- 
2.43.0


From d67721d3defcc674418914408151a53896b2938e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:02 +0000
Subject: [PATCH 26/37] fix: write rules with the same syntax are told apart,
 and a rule that is used again keeps its optional constituents

---
 richard/core/BasicGenerator.py                        | 11 +++++------
 richard/entity/GrammarRules.py                        | 11 ++++++++++-
 .../parser/helper/SimpleGrammarRulesParser.py         |  3 ++-
 3 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/richard/core/BasicGenerator.py b/richard/core/BasicGenerator.py
index 5ae57b9..6b82782 100644
--- a/richard/core/BasicGenerator.py
+++ b/richard/core/BasicGenerator.py
@@ -27,15 +27,14 @@ class BasicGenerator(SomeGenerator):
             self.output_buffer.clear()
 
 
-    def generate_node(self, used_rules: list[int], antecedent_cat: str, antecedent_values: list[any], optional: bool) -> list[str]:
+    def generate_node(self, used_rules: list[GrammarRule], antecedent_cat: str, antecedent_values: list[any], optional: bool) -> list[str]:
 
         words = []
         rule, binding, found = self.find_rule(used_rules, antecedent_cat, antecedent_values)
 
         if found:
 
-            hash = rule.hash
-            used_rules.append(hash)
+            used_rules.append(rule)
 
             for i, consequent in enumerate(rule.consequents):
                 consequent_vals = self.get_consequent_values(rule, i, binding)
@@ -88,7 +87,7 @@ class BasicGenerator(SomeGenerator):
         return consequent_values
 
 
-    def find_rule(self, used_rules: list, antecedent_cat: str, antecedent_values: list[any]):
+    def find_rule(self, used_rules: list[GrammarRule], antecedent_cat: str, antecedent_values: list[any]):
 
         found = False
         result_rule = None
@@ -127,13 +126,13 @@ class BasicGenerator(SomeGenerator):
             found = True
 
             # make sure the same rule is not executed again and again
-            if rule.hash not in used_rules:
+            if rule not in used_rules:
                 break
 
         return result_rule, binding, found
 
 
-    def generate_single_consequent(self, rule: GrammarRule, used_rules: list[str], category: str, values: list[any], position_type: str, optional: bool) -> list[str]:
+    def generate_single_consequent(self, rule: GrammarRule, used_rules: list[GrammarRule], category: str, values: list[any], position_type: str, optional: bool) -> list[str]:
 
         if position_type == POS_TYPE_WORD_FORM:
             result = category
diff --git a/richard/entity/GrammarRules.py b/richard/entity/GrammarRules.py
index 9313635..4be80f2 100644
--- a/richard/entity/GrammarRules.py
+++ b/richard/entity/GrammarRules.py
@@ -7,8 +7,13 @@ class GrammarRules:
     index: dict[str, dict[int, list[GrammarRule]]]
 
 
-    def __init__(self, grammar_rules: list[GrammarRule]):
+    # create a variant of the rule for each combination of optional constituents?
+    expand_optional: bool
+
+
+    def __init__(self, grammar_rules: list[GrammarRule], expand_optional: bool = True):
         self.index = {}
+        self.expand_optional = expand_optional
         for rule in grammar_rules:
             self.add_rule(rule)
 
@@ -22,6 +27,10 @@ class GrammarRules:
         if not argument_count in self.index[antecedent]:
             self.index[antecedent][argument_count] = []
 
+        if not self.expand_optional:
+            self.index[antecedent][argument_count].append(rule)
+            return
+
         # create a variant of the rule for all permutations of optional constituents
         for variant in self.create_rule_variants(rule):
             self.index[antecedent][argument_count].append(variant)
diff --git a/richard/processor/parser/helper/SimpleGrammarRulesParser.py b/richard/processor/parser/helper/SimpleGrammarRulesParser.py
index 7c3e9fd..18f81ef 100644
--- a/richard/processor/parser/helper/SimpleGrammarRulesParser.py
+++ b/richard/processor/parser/helper/SimpleGrammarRulesParser.py
@@ -48,7 +48,8 @@ class SimpleGrammarRulesParser:
             rule = self.parse_simple_rule(simple_rule, write_rules)
             rules.append(rule)
 
-        return GrammarRules(rules)
+        # in a write grammar it's the generator that decides about the optional constituents
+        return GrammarRules(rules, expand_optional=not write_rules)
 
 
     def parse_simple_rule(self, simple_rule: SimpleGrammarRule, write_rules: bool) -> GrammarRule:
-- 
2.43.0


From 6d9cc29f5d0979f87ab4b1f2255deeced8ce7aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:12 +0000
Subject: [PATCH 27/37] fix: the in-memory data source stores and returns empty
 values

---
 richard/data_source/SimpleDataSource.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/richard/data_source/SimpleDataSource.py b/richard/data_source/SimpleDataSource.py
index 783bf6a..48c060e 100644
--- a/richard/data_source/SimpleDataSource.py
+++ b/richard/data_source/SimpleDataSource.py
@@ -17,12 +17,10 @@ class SimpleDataSource(SomeDataSource):
     # def insert(self, record: Record):
     def insert(self, table: str, columns: list[str], values: list):
 
-        values = self.create_dict(columns, values)
-
         if not table in self.store:
             self.store[table] = []
 
-        self.store[table].append(values)
+        self.store[table].append(dict(zip(columns, values)))
 
 
     # def select(self, table, values: dict) -> list:
@@ -38,11 +36,10 @@ class SimpleDataSource(SomeDataSource):
         for record in self.store[table]:
             ok = True
             for key, value in values.items():
-                if key in record:
-                    if record[key] != value:
-                        ok = False
+                if record.get(key) != value:
+                    ok = False
             if ok:
-                result = [record[column] for column in columns]
+                result = [record.get(column) for column in columns]
                 results.append(result)
 
         return results
-- 
2.43.0


From c8519a2ea02bf7a0cd7d23ba83f54864b57822b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:46 +0000
Subject: [PATCH 28/37] fix: importing a CSV file keeps the line breaks inside
 cells

---
 richard/data_source/CsvImporter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/richard/data_source/CsvImporter.py b/richard/data_source/CsvImporter.py
index 7c04749..541c9f9 100644
--- a/richard/data_source/CsvImporter.py
+++ b/richard/data_source/CsvImporter.py
@@ -4,7 +4,7 @@ from richard.interface.SomeDataSource import SomeDataSource
 
 class CsvImporter:
     def import_table_from_file(self, table_name: str, file_path: str, data_source: SomeDataSource):
-        with open(file_path) as csvfile:
+        with open(file_path, newline='') as csvfile:
             reader = csv.reader(csvfile, delimiter=',')
             line = 0
             headers = []
-- 
2.43.0


From b59e91751494fd21ec0d704dd57998dae77e59e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:46 +0000
Subject: [PATCH 29/37] fix: a damaged SPARQL result cache entry leads to a new
 request

---
 richard/data_source/SparqlDataSource.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/richard/data_source/SparqlDataSource.py b/richard/data_source/SparqlDataSource.py
index d374455..5d2127e 100644
--- a/richard/data_source/SparqlDataSource.py
+++ b/richard/data_source/SparqlDataSource.py
@@ -34,7 +34,8 @@ class SparqlDataSource(SomeDataSource):
                 with open(file_name, 'rb') as file:
                     result = pickle.load(file)
                     return result
-            except OSError:
+            except Exception:
+                # no cached result, or one that can't be read: pickle may raise any exception on damaged data
                 pass
 
         # the actual select
-- 
2.43.0


From 026898b2446c9e59be1a2b68ba6a5af887dd9b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:46 +0000
Subject: [PATCH 30/37] fix: quotes, backslashes and line breaks in a text
 value are escaped in the SPARQL query

---
 richard/data_source/SparqlDataSource.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/richard/data_source/SparqlDataSource.py b/richard/data_source/SparqlDataSource.py
index 5d2127e..6d1c6ef 100644
--- a/richard/data_source/SparqlDataSource.py
+++ b/richard/data_source/SparqlDataSource.py
@@ -122,12 +122,18 @@ class SparqlDataSource(SomeDataSource):
                 prepared = term
             else:
                 # todo: locale
-                prepared = "'{}'@{}".format(term, self.lang)
+                prepared = "'{}'@{}".format(self.escape_text(term), self.lang)
         else:
             prepared = str(term)
         return prepared
 
 
+    def escape_text(self, text: str) -> str:
+        for char, escaped in [('\\', '\\\\'), ("'", "\\'"), ('\n', '\\n'), ('\r', '\\r')]:
+            text = text.replace(char, escaped)
+        return text
+
+
     def prepare_variables(self, values, terms):
         variables = []
         for i in range(2):
-- 
2.43.0


From 0aa62ab1bc019d962886d1a22ce3d457e5fad83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:46 +0000
Subject: [PATCH 31/37] fix: a SPARQL request that fails with any other status
 raises an error

---
 richard/data_source/SparqlDataSource.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/richard/data_source/SparqlDataSource.py b/richard/data_source/SparqlDataSource.py
index 6d1c6ef..50d7433 100644
--- a/richard/data_source/SparqlDataSource.py
+++ b/richard/data_source/SparqlDataSource.py
@@ -83,6 +83,8 @@ class SparqlDataSource(SomeDataSource):
             raise Exception("Too many requests: " + str(response.text))
         if response.status_code == 400:
             raise Exception("Bad request: " + str(response.text))
+        if response.status_code != 200:
+            raise Exception("Request failed: " + str(response.status_code) + " " + str(response.text))
 
         # Parse the JSON response
         data = response.json()
-- 
2.43.0


From 22376ffbda35cf8c198b587c484739cd2954c0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:05 +0000
Subject: [PATCH 32/37] fix: with_context restores the active contexts when its
 body raises an error, or when its context was active already

---
 richard/module/BasicDialogContext.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/richard/module/BasicDialogContext.py b/richard/module/BasicDialogContext.py
index b7dc6d9..c850ace 100644
--- a/richard/module/BasicDialogContext.py
+++ b/richard/module/BasicDialogContext.py
@@ -21,9 +21,16 @@ class BasicDialogContext(SimpleMemoryModule):
     def with_context(self, values: list, context: ExecutionContext) -> list[list]:
         name = values[0]
         body = values[1]
-        self.data_source.insert('context', ['name'], [name])
-        context.solver.solve(body, context.binding)
-        self.data_source.delete('context', ['name'], [name])
+        data_source = self.data_source
+        # an outer block, or start_context, may have activated this context already
+        was_active = len(data_source.select('context', ['name'], [name])) > 0
+        data_source.insert('context', ['name'], [name])
+        try:
+            context.solver.solve(body, context.binding)
+        finally:
+            data_source.delete('context', ['name'], [name])
+            if was_active:
+                data_source.insert('context', ['name'], [name])
         return [
             [None, None]
         ]
-- 
2.43.0


From 5e52e359d1089e2df64a042f02862be2326d65c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:58 +0000
Subject: [PATCH 33/37] fix: the output stored by a sentence that raises an
 error does not turn up in a later answer

---
 richard/core/BasicGenerator.py     |  4 ++++
 richard/core/System.py             | 11 +++++++++++
 richard/interface/SomeGenerator.py |  5 +++++
 3 files changed, 20 insertions(+)

diff --git a/richard/core/BasicGenerator.py b/richard/core/BasicGenerator.py
index 6b82782..f5c6390 100644
--- a/richard/core/BasicGenerator.py
+++ b/richard/core/BasicGenerator.py
@@ -27,6 +27,10 @@ class BasicGenerator(SomeGenerator):
             self.output_buffer.clear()
 
 
+    def clear_output(self):
+        self.output_buffer.clear()
+
+
     def generate_node(self, used_rules: list[GrammarRule], antecedent_cat: str, antecedent_values: list[any], optional: bool) -> list[str]:
 
         words = []
diff --git a/richard/core/System.py b/richard/core/System.py
index f5a33fd..e6b97b2 100644
--- a/richard/core/System.py
+++ b/richard/core/System.py
@@ -36,6 +36,17 @@ class System:
 
     def enter(self, request: SentenceRequest):
 
+        try:
+            return self.process(request)
+        except Exception:
+            # the output this sentence has stored so far must not turn up in a later answer
+            if self.output_generator:
+                self.output_generator.clear_output()
+            raise
+
+
+    def process(self, request: SentenceRequest):
+
         result = self.reader_pipeline[0].process(request)
         if result.error_type != "":
             Solver(self.model).solve([('store', [
diff --git a/richard/interface/SomeGenerator.py b/richard/interface/SomeGenerator.py
index c57b2f4..2fbf4d7 100644
--- a/richard/interface/SomeGenerator.py
+++ b/richard/interface/SomeGenerator.py
@@ -6,3 +6,8 @@ class SomeGenerator(ABC):
     @abstractmethod
     def generate_output(self) -> str:
         pass
+
+
+    def clear_output(self):
+        """ Forgets the output that was not generated yet """
+        pass
-- 
2.43.0


From 298266d92bfb79880783d7dbe64ec4037316f22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:09 +0000
Subject: [PATCH 34/37] fix: the log shows the locale instead of its separate
 letters

---
 richard/processor/language_selector/LanguageSelectorProduct.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/richard/processor/language_selector/LanguageSelectorProduct.py b/richard/processor/language_selector/LanguageSelectorProduct.py
index 81757a7..6083eac 100644
--- a/richard/processor/language_selector/LanguageSelectorProduct.py
+++ b/richard/processor/language_selector/LanguageSelectorProduct.py
@@ -10,7 +10,7 @@ class LanguageSelectorProduct(SomeProduct):
 
 
     def log(self, logger: Logger):
-        logger.add(", ".join(self.locale))
+        logger.add(self.locale)
 
 
     def get_output(self) -> any:
-- 
2.43.0


From 2c02455332efef4d534cb8418decd164c770f23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:26 +0000
Subject: [PATCH 35/37] fix: log only the last test of a dialog, not earlier
 ones that are equal to it

---
 richard/core/DialogTester.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/richard/core/DialogTester.py b/richard/core/DialogTester.py
index f963a41..88d24f8 100644
--- a/richard/core/DialogTester.py
+++ b/richard/core/DialogTester.py
@@ -42,12 +42,12 @@ class DialogTester:
 
 
     def do_run(self):
-        last = self.tests[-1] if len(self.tests) > 0 else None
+        last = len(self.tests) - 1
         for i, test in enumerate(self.tests):
 
             question, expected = test
 
-            log_this = self.logger.which_tests == ALL or (self.logger.which_tests == LAST and test == last)
+            log_this = self.logger.which_tests == ALL or (self.logger.which_tests == LAST and i == last)
             self.logger.is_last_test = log_this
 
             request = SentenceRequest(question, logger=self.logger)
-- 
2.43.0


From fb290e1963b874fb1d670f5cb71a76daf1cc1f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:31 +0000
Subject: [PATCH 36/37] fix: keep atoms that are equal to each other apart when
 restoring their order

---
 .../optimizer/IsolateIndependentParts.py                  | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/richard/processor/semantic_composer/optimizer/IsolateIndependentParts.py b/richard/processor/semantic_composer/optimizer/IsolateIndependentParts.py
index 3297f03..5e15f31 100644
--- a/richard/processor/semantic_composer/optimizer/IsolateIndependentParts.py
+++ b/richard/processor/semantic_composer/optimizer/IsolateIndependentParts.py
@@ -81,12 +81,12 @@ class IsolateIndependentParts:
         creates a new batch, based on `batch`, with the atoms in the order of `atoms`
         """
         ordered_atoms = []
+        # there may be equal atoms, each is used once
+        remaining = list(batch.atoms)
 
         for atom in atoms:
-            for batch_atom in batch.atoms:
-                if batch_atom == atom:
-                    ordered_atoms.append(batch_atom)
-                    break
+            if atom in remaining:
+                ordered_atoms.append(remaining.pop(remaining.index(atom)))
 
         ordered_batch = AtomBatch(ordered_atoms, batch.variables)
         return ordered_batch
-- 
2.43.0


From 8d579eea72d5674d6d73b52c8e4671556bc0a4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:52 +0000
Subject: [PATCH 37/37] fix: check every row that a relation returns, not just
 the first

---
 richard/core/Solver.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/richard/core/Solver.py b/richard/core/Solver.py
index 91abfc2..2ff1ca5 100644
--- a/richard/core/Solver.py
+++ b/richard/core/Solver.py
@@ -59,11 +59,11 @@ class Solver(SomeSolver):
         if not isinstance(values, list):
             raise Exception("Predicate '" + predicate + "' should return a list")
 
-        if len(values) > 0:
-            if not isinstance(values[0], list):
+        for value in values:
+            if not isinstance(value, list):
                 raise Exception("The results of '" + predicate + "' should be lists")
-            if len(values[0]) != len(arguments):
-                raise Exception("The number of arguments in the results of '" + predicate + "' is " + str(len(values[0])) + " and should be " + str(len(arguments)))
+            if len(value) != len(arguments):
+                raise Exception("The number of arguments in the results of '" + predicate + "' is " + str(len(value)) + " and should be " + str(len(arguments)))
 
         results = self.create_solve_single_results(values, binding, arguments)
         return results
-- 
2.43.0

