From 2403f053182c84c1cd21de87774ff0c65f7d19af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:16 +0000
Subject: [PATCH 01/55] fix: a key, operator or template never continues on the
 next line

The grammar allowed line breaks between the section operator and the key,
between a key and its operator and between the copy operator and the
template, which let a single instruction swallow several lines and put all
following line numbers off.
---
 python/enolib/grammar_regex.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/enolib/grammar_regex.py b/python/enolib/grammar_regex.py
index 7f2486f..20a4420 100644
--- a/python/enolib/grammar_regex.py
+++ b/python/enolib/grammar_regex.py
@@ -57,7 +57,7 @@ class Grammar:
     # # `key` < template
     SECTION_KEY = f"(?:{SECTION_KEY_UNESCAPED}|{SECTION_KEY_ESCAPED})"
     SECTION_TEMPLATE = rf"(?:(<(?!<)|<<)[^\S\n]*{REQUIRED})?"
-    SECTION = rf"{SECTION_OPERATOR}\s*{SECTION_KEY}[^\S\n]*{SECTION_TEMPLATE}"
+    SECTION = rf"{SECTION_OPERATOR}[^\S\n]*{SECTION_KEY}[^\S\n]*{SECTION_TEMPLATE}"
     SECTION_COPY_OPERATOR_INDEX = 17
     SECTION_TEMPLATE_INDEX = 18
 
@@ -88,11 +88,11 @@ class Grammar:
     FIELDSET_ENTRY_VALUE_INDEX = 26
 
     # < template
-    COPY = rf"(<)\s*{REQUIRED}"
+    COPY = rf"(<)[^\S\n]*{REQUIRED}"
     COPY_OPERATOR_INDEX = 27
     TEMPLATE_INDEX = 28
 
-    LATE_DETERMINED = rf"{KEY}\s*(?:{ELEMENT_OR_FIELD}|{FIELDSET_ENTRY}|{COPY})"
+    LATE_DETERMINED = rf"{KEY}[^\S\n]*(?:{ELEMENT_OR_FIELD}|{FIELDSET_ENTRY}|{COPY})"
 
     NOT_EMPTY = f"(?:{EARLY_DETERMINED}|{LATE_DETERMINED})"
 
-- 
2.43.0


From 79367abaddaeeeb67d910721316d2b5137e7536a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:38 +0000
Subject: [PATCH 02/55] fix: elements of a section that is copied without own
 elements are found by raw()

---
 python/enolib/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/enolib/context.py b/python/enolib/context.py
index 791c7f1..3d60428 100644
--- a/python/enolib/context.py
+++ b/python/enolib/context.py
@@ -59,7 +59,7 @@ class Context:
 
     def elements(self, section):
         if 'mirror' in section:
-            self.elements(section['mirror'])
+            return self.elements(section['mirror'])
         else:
             if not 'computed_elements' in section:
                 section['computed_elements_map'] = {}
-- 
2.43.0


From 1942d6660dd1bf88a76710b877d6720c5f241b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:41 +0000
Subject: [PATCH 03/55] fix: reading the comment of an element with a single
 empty comment line

---
 python/enolib/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/enolib/context.py b/python/enolib/context.py
index 3d60428..7d37c68 100644
--- a/python/enolib/context.py
+++ b/python/enolib/context.py
@@ -21,7 +21,7 @@ class Context:
         if not 'computed_comment' in element:
             if 'comments' in element:
                 if len(element['comments']) == 1:
-                    element['computed_comment'] = element['comments'][0]['comment']
+                    element['computed_comment'] = element['comments'][0].get('comment')
                 else:
                     first_non_empty_line_index = None
                     shared_indent = math.inf
-- 
2.43.0


From 6dd01340b7aa3260721e56f6b2e653bdbcb16b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:11 +0000
Subject: [PATCH 04/55] fix: reporting an error on the comment of an element
 that has no comment

---
 python/enolib/errors/selections.py  | 2 +-
 python/enolib/reporters/reporter.py | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/enolib/errors/selections.py b/python/enolib/errors/selections.py
index 099192e..fef8b33 100644
--- a/python/enolib/errors/selections.py
+++ b/python/enolib/errors/selections.py
@@ -41,7 +41,7 @@ def selection(instruction, range, position, *to):
     }
 
 def select_comments(element):
-    comments = element['comments']
+    comments = element.get('comments', [])
 
     if len(comments) == 1:
         if 'comment' in comments[0]:
diff --git a/python/enolib/reporters/reporter.py b/python/enolib/reporters/reporter.py
index b29a69a..175c1b8 100644
--- a/python/enolib/reporters/reporter.py
+++ b/python/enolib/reporters/reporter.py
@@ -151,6 +151,9 @@ class Reporter:
         return self
 
     def report_comments(self, element):
+        if 'comments' not in element:
+            return self.report_line(element)
+
         self._snippet[element['line']] = INDICATE
         for comment in element['comments']:
             self._snippet[comment['line']] = EMPHASIZE
-- 
2.43.0


From 97539f1605db9439f2e40e2f8acdf48763629724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:13 +0000
Subject: [PATCH 05/55] fix: errors, comments and keys can be requested on the
 document itself

---
 python/enolib/elements/element.py      | 2 +-
 python/enolib/elements/element_base.py | 3 +++
 python/enolib/errors/selections.py     | 9 +++++++++
 python/enolib/errors/validation.py     | 2 +-
 python/enolib/reporters/reporter.py    | 7 +++++++
 5 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/python/enolib/elements/element.py b/python/enolib/elements/element.py
index 6b4239c..2133564 100644
--- a/python/enolib/elements/element.py
+++ b/python/enolib/elements/element.py
@@ -8,7 +8,7 @@ from .section_element import SectionElement
 class Element(SectionElement):
     # TODO: Revisit (also: missing in js implementation)
     def __repr__(self):
-        return f"<class Element key={self._instruction['key']}>"
+        return f"<class Element key={self._key()}>"
 
     def to_fieldset_entry(self):
         if not self._fieldset_entry:
diff --git a/python/enolib/elements/element_base.py b/python/enolib/elements/element_base.py
index c5d434a..fb421c1 100644
--- a/python/enolib/elements/element_base.py
+++ b/python/enolib/elements/element_base.py
@@ -27,6 +27,9 @@ class ElementBase:
             raise Validation.comment_error(self._context, message, self._instruction)
 
     def _key(self):
+        if self._instruction['type'] is InstructionType.DOCUMENT:
+            return None
+
         if self._instruction['type'] is InstructionType.LIST_ITEM:
             return self._instruction['parent']['key']
 
diff --git a/python/enolib/errors/selections.py b/python/enolib/errors/selections.py
index fef8b33..5c73246 100644
--- a/python/enolib/errors/selections.py
+++ b/python/enolib/errors/selections.py
@@ -41,6 +41,9 @@ def selection(instruction, range, position, *to):
     }
 
 def select_comments(element):
+    if element['type'] is InstructionType.DOCUMENT:
+        return DOCUMENT_BEGIN
+
     comments = element.get('comments', [])
 
     if len(comments) == 1:
@@ -54,9 +57,15 @@ def select_comments(element):
         return selection(element, 'line', BEGIN)
 
 def select_element(element):
+    if element['type'] is InstructionType.DOCUMENT:
+        return DOCUMENT_BEGIN
+
     return selection(element, 'line', BEGIN, last_in(element), 'line', END)
 
 def select_key(element):
+    if element['type'] is InstructionType.DOCUMENT:
+        return DOCUMENT_BEGIN
+
     return selection(element, 'key', BEGIN, END)
 
 def select_line(element):
diff --git a/python/enolib/errors/validation.py b/python/enolib/errors/validation.py
index 0cb62c1..2c5f1d6 100644
--- a/python/enolib/errors/validation.py
+++ b/python/enolib/errors/validation.py
@@ -33,7 +33,7 @@ class Validation:
         return ValidationError(
             context.messages.missing_comment,
             context.reporter(context).report_line(element).snippet(), # TODO: Question-tag an empty line before an element with missing comment
-            selection(element, 'line', BEGIN)
+            DOCUMENT_BEGIN if element['type'] is InstructionType.DOCUMENT else selection(element, 'line', BEGIN)
         )
 
     @staticmethod
diff --git a/python/enolib/reporters/reporter.py b/python/enolib/reporters/reporter.py
index 175c1b8..6415f2d 100644
--- a/python/enolib/reporters/reporter.py
+++ b/python/enolib/reporters/reporter.py
@@ -161,6 +161,9 @@ class Reporter:
         return self
 
     def report_element(self, element):
+        if element['type'] is InstructionType.DOCUMENT:
+            return self
+
         self._snippet[element['line']] = EMPHASIZE
         self._tag_element(element, INDICATE)
 
@@ -174,6 +177,10 @@ class Reporter:
         return self
 
     def report_line(self, instruction):
+        # The document itself is not on any line (and the line of a parse error has no type)
+        if instruction.get('type') is InstructionType.DOCUMENT:
+            return self
+
         self._snippet[instruction['line']] = EMPHASIZE
 
         return self
-- 
2.43.0


From 18ead8ac7f46a7d40e4a24238d2ff5f124a83a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:42 +0000
Subject: [PATCH 06/55] fix: key errors on list items point to the key of their
 list

---
 python/enolib/errors/validation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/enolib/errors/validation.py b/python/enolib/errors/validation.py
index 2c5f1d6..03c0d7e 100644
--- a/python/enolib/errors/validation.py
+++ b/python/enolib/errors/validation.py
@@ -22,6 +22,10 @@ class Validation:
 
     @staticmethod
     def key_error(context, message, element):
+        # The key of a list item is that of its list
+        if element['type'] is InstructionType.LIST_ITEM:
+            element = element['parent']
+
         return ValidationError(
             context.messages.key_error(message),
             context.reporter(context).report_line(element).snippet(),
-- 
2.43.0


From 59f7fb6ba1a20e20d3492235c1d08b9658b9c667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:02 +0000
Subject: [PATCH 07/55] fix: report sections that contain empty or copied
 elements

---
 python/enolib/reporters/reporter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/enolib/reporters/reporter.py b/python/enolib/reporters/reporter.py
index 6415f2d..bd1fdb4 100644
--- a/python/enolib/reporters/reporter.py
+++ b/python/enolib/reporters/reporter.py
@@ -124,6 +124,8 @@ class Reporter:
                 return element['line'] + 1
         elif element['type'] is InstructionType.SECTION:
             return self._tag_section(element, tag)
+        elif element['type'] is not InstructionType.DOCUMENT:
+            return element['line'] + 1
 
     def _tag_section(self, section, tag, recursive=True):
         scan_line = section['line'] + 1
-- 
2.43.0


From bf1c4fae48848dea41ca87179875c2d0542bd1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:04 +0000
Subject: [PATCH 08/55] fix: terminal reports of parse errors and deep copies

---
 python/enolib/reporters/terminal_reporter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/enolib/reporters/terminal_reporter.py b/python/enolib/reporters/terminal_reporter.py
index 4fb296c..fd341cf 100644
--- a/python/enolib/reporters/terminal_reporter.py
+++ b/python/enolib/reporters/terminal_reporter.py
@@ -36,7 +36,7 @@ RANGE_STYLE = {
     'entry_operator': WHITE,
     'section_operator': WHITE,
     'copy_operator': WHITE,
-    'deepCopy_operator': WHITE,
+    'deep_copy_operator': WHITE,
     'multiline_field_operator': WHITE,
     'direct_line_continuation_operator': WHITE,
     'spaced_line_continuation_operator': WHITE,
@@ -71,7 +71,8 @@ class TerminalReporter(Reporter):
 
         content = ''
         if instruction:
-            if instruction['type'] is InstructionType.COMMENT or instruction['type'] is InstructionType.UNPARSED:
+            # The line that could not be parsed carries no type at all
+            if instruction.get('type') is InstructionType.COMMENT or instruction.get('type') is InstructionType.UNPARSED:
                 content = BRIGHT_BLACK + self._context.input[instruction['ranges']['line'][BEGIN]:instruction['ranges']['line'][END]] + RESET
             else:
                 content = self._context.input[instruction['ranges']['line'][BEGIN]:instruction['ranges']['line'][END]]
-- 
2.43.0


From 91febddef03a79a9673ea00b0ed76c3a110edbd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:06 +0000
Subject: [PATCH 09/55] fix: show the context below an error on the first line

---
 python/enolib/reporters/reporter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/enolib/reporters/reporter.py b/python/enolib/reporters/reporter.py
index bd1fdb4..6b97a57 100644
--- a/python/enolib/reporters/reporter.py
+++ b/python/enolib/reporters/reporter.py
@@ -216,9 +216,9 @@ class Reporter:
                     continue
 
                 if(line + 2 < self._context.line_count and self._snippet[line + 2] is not None and self._snippet[line + 2] != DISPLAY or
-                   line - 2 > 0 and self._snippet[line - 2] is not None and self._snippet[line - 2] != DISPLAY or
+                   line - 2 >= 0 and self._snippet[line - 2] is not None and self._snippet[line - 2] != DISPLAY or
                    line + 1 < self._context.line_count and self._snippet[line + 1] is not None and self._snippet[line + 1] != DISPLAY or
-                   line - 1 > 0 and self._snippet[line - 1] is not None and self._snippet[line - 1] != DISPLAY):
+                   line - 1 >= 0 and self._snippet[line - 1] is not None and self._snippet[line - 1] != DISPLAY):
                     self._snippet[line] = DISPLAY
                 elif line + 3 < self._context.line_count and self._snippet[line + 3] is not None and self._snippet[line + 3] != DISPLAY:
                     self._snippet[line] = OMISSION
-- 
2.43.0


From ec8dad7a43968fa60477c0522efbd38fd55910a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:29 +0000
Subject: [PATCH 10/55] fix: all_elements_required on sections whose elements
 were not queried yet

---
 python/enolib/elements/section.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/enolib/elements/section.py b/python/enolib/elements/section.py
index 9f95629..3a091af 100644
--- a/python/enolib/elements/section.py
+++ b/python/enolib/elements/section.py
@@ -265,9 +265,9 @@ class Section(ElementBase):
         self._all_elements_required = required
 
         for element in self._elements():
-            if element._instruction['type'] is InstructionType.SECTION and element._yielded:
+            if hasattr(element, '_section'):
                 element.to_section().all_elements_required(required)
-            elif element._instruction['type'] is InstructionType.FIELDSET and element._yielded:
+            elif hasattr(element, '_fieldset'):
                 element.to_fieldset().all_entries_required(required)
 
     def assert_all_touched(self, message=None, *, only=None, skip=None):
-- 
2.43.0


From 0b182ac24d9bc2f0af87b422989975a773afc33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:32 +0000
Subject: [PATCH 11/55] fix: assert_all_touched on a fieldset reports the
 untouched entry

---
 python/enolib/elements/fieldset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/enolib/elements/fieldset.py b/python/enolib/elements/fieldset.py
index 6a644f8..63b4d25 100644
--- a/python/enolib/elements/fieldset.py
+++ b/python/enolib/elements/fieldset.py
@@ -97,7 +97,7 @@ class Fieldset(ElementBase):
                     if callable(message):
                         message = message(entry)
 
-                    raise Validation.unexpected_element(self._context, message, entry['instruction'])
+                    raise Validation.unexpected_element(self._context, message, entry._instruction)
 
     def entries(self, key=None):
         self._touched = True
-- 
2.43.0


From f8390e5d5325223e185ac99f400286183d5d68ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:34 +0000
Subject: [PATCH 12/55] fix: entry() of a fieldset returns a missing entry like
 all other queries

---
 python/enolib/elements/fieldset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/enolib/elements/fieldset.py b/python/enolib/elements/fieldset.py
index 63b4d25..2d8b37e 100644
--- a/python/enolib/elements/fieldset.py
+++ b/python/enolib/elements/fieldset.py
@@ -22,7 +22,7 @@ class Fieldset(ElementBase):
 
         return self._instantiated_entries_map if map else self._instantiated_entries
 
-    def _entry(self, key, *, required=False):
+    def _entry(self, key, *, required=None):
         self._touched = True
 
         if not key:
@@ -71,7 +71,7 @@ class Fieldset(ElementBase):
 
             self._instantiated_entries.extend(native_entries)
 
-    def _missingError(self, entry):
+    def _missing_error(self, entry):
         raise Validation.missing_element(self._context, entry._key, self._instruction, 'missing_fieldset_entry')
 
     def _untouched(self):
-- 
2.43.0


From e27023929a0540454b479425b51a96b8cf62b260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:49 +0000
Subject: [PATCH 13/55] fix: to_fieldset_entry and to_list_item of looked up
 elements

---
 python/enolib/elements/element.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/enolib/elements/element.py b/python/enolib/elements/element.py
index 2133564..a61e42f 100644
--- a/python/enolib/elements/element.py
+++ b/python/enolib/elements/element.py
@@ -11,7 +11,7 @@ class Element(SectionElement):
         return f"<class Element key={self._key()}>"
 
     def to_fieldset_entry(self):
-        if not self._fieldset_entry:
+        if not hasattr(self, '_fieldset_entry'):
             if self._instruction['type'] is not InstructionType.FIELDSET_ENTRY:
                 raise Validation.unexpected_element_type(self._context, None, self._instruction, 'expected_fieldset_entry')
 
@@ -20,7 +20,7 @@ class Element(SectionElement):
         return self._fieldset_entry
 
     def to_list_item(self):
-        if not self._list_item:
+        if not hasattr(self, '_list_item'):
             if self._instruction['type'] is not InstructionType.LIST_ITEM:
                 raise Validation.unexpected_element_type(self._context, None, self._instruction, 'expected_list_item')
 
-- 
2.43.0


From b597b9bdf1d8c91af780e8d8af90ee2802073a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:52 +0000
Subject: [PATCH 14/55] fix: parent() of sections, and of elements obtained
 through lookup

---
 python/enolib/elements/empty.py          | 2 +-
 python/enolib/elements/field.py          | 2 +-
 python/enolib/elements/fieldset_entry.py | 2 +-
 python/enolib/elements/list_item.py      | 2 +-
 python/enolib/elements/section.py        | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/python/enolib/elements/empty.py b/python/enolib/elements/empty.py
index 6147dd0..4f2cf7c 100644
--- a/python/enolib/elements/empty.py
+++ b/python/enolib/elements/empty.py
@@ -7,4 +7,4 @@ class Empty(ElementBase):
         return f"<class Empty key={self._instruction['key']}>"
 
     def parent(self):
-        return self._parent or section.Section(self._context, self._instruction.parent)
+        return self._parent or section.Section(self._context, self._instruction['parent'])
diff --git a/python/enolib/elements/field.py b/python/enolib/elements/field.py
index ba44871..e740099 100644
--- a/python/enolib/elements/field.py
+++ b/python/enolib/elements/field.py
@@ -36,7 +36,7 @@ class Field(ValueElementBase):
         return self._value(loader, required=False)
 
     def parent(self):
-        return self._parent or section.Section(self._context, self._instruction.parent)
+        return self._parent or section.Section(self._context, self._instruction['parent'])
 
     def required_string_value(self):
         return self._value(required=True)
diff --git a/python/enolib/elements/fieldset_entry.py b/python/enolib/elements/fieldset_entry.py
index e383624..6ab1540 100644
--- a/python/enolib/elements/fieldset_entry.py
+++ b/python/enolib/elements/fieldset_entry.py
@@ -7,4 +7,4 @@ class FieldsetEntry(ValueElementBase):
         return f"<class FieldsetEntry key={self._instruction['key']} value={self._print_value()}>"
 
     def parent(self):
-        return self._parent or fieldset.Fieldset(self._context, self._instruction.parent)
+        return self._parent or fieldset.Fieldset(self._context, self._instruction['parent'])
diff --git a/python/enolib/elements/list_item.py b/python/enolib/elements/list_item.py
index 62584e1..d6f4d9b 100644
--- a/python/enolib/elements/list_item.py
+++ b/python/enolib/elements/list_item.py
@@ -7,4 +7,4 @@ class ListItem(ValueElementBase):
         return f"<class ListItem value={self._print_value()}>"
 
     def parent(self):
-        return self._parent or list.List(self._context, self._instruction.parent)
+        return self._parent or list.List(self._context, self._instruction['parent'])
diff --git a/python/enolib/elements/section.py b/python/enolib/elements/section.py
index 3a091af..94042c3 100644
--- a/python/enolib/elements/section.py
+++ b/python/enolib/elements/section.py
@@ -382,7 +382,7 @@ class Section(ElementBase):
         return self._section(key, required=False)
 
     def parent(self):
-        if self._instruction['type'] is not InstructionType.DOCUMENT:
+        if self._instruction['type'] is InstructionType.DOCUMENT:
             return None
 
         return self._parent or Section(self._context, self._instruction['parent'])
-- 
2.43.0


From 60a62feb58b2b13649f12dd2aa5b6db2e195e016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:11 +0000
Subject: [PATCH 15/55] fix: report cyclic dependencies that lead through
 nested sections

---
 python/enolib/errors/parsing.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/python/enolib/errors/parsing.py b/python/enolib/errors/parsing.py
index 1c87b9b..9bca7e7 100644
--- a/python/enolib/errors/parsing.py
+++ b/python/enolib/errors/parsing.py
@@ -11,10 +11,11 @@ class Parsing:
         first_occurrence = instruction_chain.index(instruction)
         feedback_chain = instruction_chain[first_occurrence:]
 
-        if 'template' in feedback_chain[-1]:
-            copy_instruction = feedback_chain[-1]
-        elif 'template' in feedback_chain[0]:
-            copy_instruction = feedback_chain[0]
+        # Sections also depend on the sections inside them, so not every link in the chain is a copy
+        copy_instruction = next(
+            element for index, element in reversed(list(enumerate(feedback_chain)))
+            if 'copy' in element and element['copy']['template'] is feedback_chain[(index + 1) % len(feedback_chain)]
+        )
 
         reporter = context.reporter(context)
 
-- 
2.43.0


From 65d34719bc2c03dfcbab416db05894bed841cf81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:49 +0000
Subject: [PATCH 16/55] fix: a missing template is reported wherever in a chain
 of copies it is missing

---
 python/enolib/resolver.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/enolib/resolver.py b/python/enolib/resolver.py
index 17de161..1150f5c 100644
--- a/python/enolib/resolver.py
+++ b/python/enolib/resolver.py
@@ -151,6 +151,7 @@ class Resolver:
                 if not 'template' in copy:
                     raise Parsing.non_section_element_not_found(self._context, copy['targets'][0])
 
+            for copy in self._context._copy_non_section_elements.values():
                 for target in copy['targets']:
                     if 'copy' in target:
                         self.resolve_non_section_element(target)
@@ -162,6 +163,7 @@ class Resolver:
                 if not 'template' in copy:
                     raise Parsing.section_not_found(self._context, copy['targets'][0])
 
+            for copy in self._context._copy_sections.values():
                 for target in copy['targets']:
                     if 'copy' in target:
                         self.resolve_section(target)
-- 
2.43.0


From c056ef3ac844b3f00234fcb8c31a3b7cce7e3218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:12 +0000
Subject: [PATCH 17/55] fix: an unterminated multiline field on the last line
 adds no line to the document

---
 python/enolib/analyzer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/enolib/analyzer.py b/python/enolib/analyzer.py
index 1bc611b..af80976 100644
--- a/python/enolib/analyzer.py
+++ b/python/enolib/analyzer.py
@@ -344,7 +344,11 @@ class Analyzer:
                 last_non_section_element = instruction
 
                 if not terminator_match:
-                    self._tokenize_error_context()
+                    if self._index > len(self._context.input):
+                        self._context.line_count = self._line
+                    else:
+                        self._tokenize_error_context()
+
                     raise Parsing.unterminated_multiline_field(self._context, instruction)
 
                 end_of_multiline_field_index = terminator_match.start()
-- 
2.43.0


From 1082c7fb230cdefb0ec3271a60627d6cd137738e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:42 +0000
Subject: [PATCH 18/55] fix: look up the line continuations of the last entry
 or item

---
 python/enolib/lookup.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/python/enolib/lookup.py b/python/enolib/lookup.py
index 6b367eb..539cf84 100644
--- a/python/enolib/lookup.py
+++ b/python/enolib/lookup.py
@@ -1,6 +1,7 @@
 from .context import Context
 from .elements.element import Element
 from .constants import BEGIN, END, InstructionType
+from .errors.selections import last_in
 
 def check_multiline_field_by_line(field, line):
     if line < field['line'] or line > field['end']['line']:
@@ -71,7 +72,7 @@ def check_fieldset_by_line(fieldset, line):
     if line == fieldset['line']:
         return { 'element': fieldset, 'instruction': fieldset }
 
-    if not 'entries' in fieldset or line > fieldset['entries'][-1]['line']:
+    if not 'entries' in fieldset or line > last_in(fieldset['entries'][-1])['line']:
         return False
 
     for entry in fieldset['entries']:
@@ -92,7 +93,7 @@ def check_fieldset_by_index(fieldset, index):
     if index <= fieldset['ranges']['line'][END]:
         return { 'element': fieldset, 'instruction': fieldset }
 
-    if not 'entries' in fieldset or index > fieldset['entries'][-1]['ranges']['line'][END]:
+    if not 'entries' in fieldset or index > last_in(fieldset['entries'][-1])['ranges']['line'][END]:
         return False
 
     for entry in fieldset['entries']:
@@ -113,7 +114,7 @@ def check_list_by_line(list, line):
     if line == list['line']:
         return { 'element': list, 'instruction': list }
 
-    if not 'items' in list or line > list['items'][-1]['line']:
+    if not 'items' in list or line > last_in(list['items'][-1])['line']:
         return False
 
     for item in list['items']:
@@ -134,7 +135,7 @@ def check_list_by_index(list, index):
     if index <= list['ranges']['line'][END]:
         return { 'element': list, 'instruction': list }
 
-    if not 'items' in list or index > list['items'][-1]['ranges']['line'][END]:
+    if not 'items' in list or index > last_in(list['items'][-1])['ranges']['line'][END]:
         return False
 
     for item in list['items']:
-- 
2.43.0


From f2130c5686a4d84d9d627e1921c9f0e10e605700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:44 +0000
Subject: [PATCH 19/55] fix: look up comments by index as by line and column

---
 python/enolib/lookup.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/enolib/lookup.py b/python/enolib/lookup.py
index 539cf84..2cff67a 100644
--- a/python/enolib/lookup.py
+++ b/python/enolib/lookup.py
@@ -228,6 +228,7 @@ def lookup(input: str, *, column=None, index=None, line=None, **options):
             raise IndexError(f"You are trying to look up an index ({index}) outside of the document's index range (0-{len(context.input)})")
 
         match = check_in_section_by_index(context.document, index)
+        line = input.count('\n', 0, index)
 
     result = {
         'element': Element(context, match['element']),
-- 
2.43.0


From 772996514213d5bde55d57d87bd217224590c2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:07 +0000
Subject: [PATCH 20/55] fix: comments right above an erroneous line show up in
 reports

---
 python/enolib/reporters/reporter.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/enolib/reporters/reporter.py b/python/enolib/reporters/reporter.py
index 6b97a57..16713a0 100644
--- a/python/enolib/reporters/reporter.py
+++ b/python/enolib/reporters/reporter.py
@@ -15,6 +15,12 @@ class Reporter:
         self._build_index()
 
     def _build_index(self):
+        # Lines that belong to nothing (e.g. comments right above the line of a parse error) are shown as they are
+        begin = 0
+        for line, content in enumerate(self._context.input.split('\n')):
+            self._index[line] = { 'line': line, 'ranges': { 'line': (begin, begin + len(content)) } }
+            begin += len(content) + 1
+
         # TODO: Put this into the root class scope?
         def index_comments(element):
             if 'comments' in element:
-- 
2.43.0


From cd8eaf70905a9702e6c7ee19f15ebdf2d2aabe0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:38 +0000
Subject: [PATCH 21/55] fix: elements copied from a template precede the own
 elements of a section

As they already do for fieldsets and lists, and in raw().
---
 python/enolib/elements/section.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/enolib/elements/section.py b/python/enolib/elements/section.py
index 94042c3..bf5d8d4 100644
--- a/python/enolib/elements/section.py
+++ b/python/enolib/elements/section.py
@@ -169,11 +169,13 @@ class Section(ElementBase):
                 return instance
 
             filtered = [element for element in section['elements'] if element['key'] not in self._instantiated_elements_map]
-            self._instantiated_elements.extend(instantiate_and_index(element) for element in filtered)  # TODO: Probably needs to come AFTER 'if 'extend' in section:' below because otherwise the order is incorrect?
+            native_elements = [instantiate_and_index(element) for element in filtered]
 
             if 'extend' in section:
                 self._instantiate_elements(section['extend'])
 
+            self._instantiated_elements.extend(native_elements)
+
     def _list(self, key, *, required=None):
         self._touched = True
 
-- 
2.43.0


From bdc65f4aae9f234407479604a0cee430bc47bda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:40 +0000
Subject: [PATCH 22/55] fix: line breaks in values are escaped in the string
 representation of elements

---
 python/enolib/elements/value_element_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/enolib/elements/value_element_base.py b/python/enolib/elements/value_element_base.py
index d2ea72f..ffc0cff 100644
--- a/python/enolib/elements/value_element_base.py
+++ b/python/enolib/elements/value_element_base.py
@@ -12,7 +12,7 @@ class ValueElementBase(ElementBase):
         if len(value) > 14:
             value = f"{value[0:11]}..."
 
-        return value.replace("\n", '\n')
+        return value.replace('\n', '\\n')
 
     def _value(self, loader=None, *, required):
         self._touched = True
-- 
2.43.0


From fed41a0711f79f80309f1f2a7f6df14879703799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:42 +0000
Subject: [PATCH 23/55] fix: escape the source in html reports

---
 python/enolib/reporters/html_reporter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/enolib/reporters/html_reporter.py b/python/enolib/reporters/html_reporter.py
index e797b93..548a0fc 100644
--- a/python/enolib/reporters/html_reporter.py
+++ b/python/enolib/reporters/html_reporter.py
@@ -40,6 +40,6 @@ class HtmlReporter(Reporter):
         snippet = '\n'.join(self._line(line, tag) for line, tag in enumerate(self._snippet) if tag is not None)
 
         if self._context.source:
-            return f"<div><div>{self._context.source}</div><pre class=\"eno-report\">{columns_header}{snippet}</pre></div>"
+            return f"<div><div>{escape(self._context.source)}</div><pre class=\"eno-report\">{columns_header}{snippet}</pre></div>"
 
         return f"<pre class=\"eno-report\">{columns_header}{snippet}</pre>"
-- 
2.43.0


From b602ebb727ab0ede4ae163e7b946cf19b8dc7b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:59 +0000
Subject: [PATCH 24/55] fix: touching an element that was not queried yet
 touches it

As documented, touch() touches the element and all elements below it, and
reading key or comment touches the element, whether or not it was already
obtained as a specific type.
---
 python/enolib/elements/section_element.py | 27 +++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/python/enolib/elements/section_element.py b/python/enolib/elements/section_element.py
index f9c25e9..b182372 100644
--- a/python/enolib/elements/section_element.py
+++ b/python/enolib/elements/section_element.py
@@ -13,7 +13,13 @@ class SectionElement(ElementBase):
         return f"<class SectionElement key={self._instruction['key']}>"
 
     def _untouched(self):
-        if not hasattr(self, '_yielded'):
+        if hasattr(self, '_touched'):
+            self._yield_unambiguous()
+
+            for yielded in ('_empty', '_field', '_fieldset', '_list', '_section'):
+                if hasattr(self, yielded):
+                    getattr(self, yielded)._touched = True
+        elif not hasattr(self, '_yielded'):
             return self._instruction
 
         if hasattr(self, '_empty') and not hasattr(self._empty, '_touched'):
@@ -31,6 +37,20 @@ class SectionElement(ElementBase):
         if hasattr(self, '_section'):
             return self._section._untouched()
 
+    def _yield_unambiguous(self):
+        if hasattr(self, '_yielded'):
+            return
+
+        if (self._instruction['type'] is InstructionType.FIELD or
+            self._instruction['type'] is InstructionType.MULTILINE_FIELD_BEGIN):
+            self.to_field()
+        elif self._instruction['type'] is InstructionType.FIELDSET:
+            self.to_fieldset()
+        elif self._instruction['type'] is InstructionType.LIST:
+            self.to_list()
+        elif self._instruction['type'] is InstructionType.SECTION:
+            self.to_section()
+
     def to_empty(self):
         if not hasattr(self, '_empty'):
             if hasattr(self, '_yielded'):
@@ -96,9 +116,8 @@ class SectionElement(ElementBase):
         return self._section
 
     def touch(self):
-        # TODO: Here and elsewhere: This needs to touch anyway; possibly not so small implications
-        if not hasattr(self, '_yielded'):
-            return
+        self._touched = True
+        self._yield_unambiguous()
 
         if hasattr(self, '_empty'):
             self._empty._touched = True
-- 
2.43.0


From 564e0ed3b579b80d465a5f3bbece14c7c0d1b7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:16 +0000
Subject: [PATCH 25/55] fix: a missing empty is reported as such and a missing
 list has no length

---
 python/enolib/elements/missing/missing_list.py | 3 +++
 python/enolib/elements/section.py              | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/python/enolib/elements/missing/missing_list.py b/python/enolib/elements/missing/missing_list.py
index a23d433..8ac261e 100644
--- a/python/enolib/elements/missing/missing_list.py
+++ b/python/enolib/elements/missing/missing_list.py
@@ -10,6 +10,9 @@ class MissingList(MissingElementBase):
     def items(self):
         return []
 
+    def length(self):
+        return 0
+
     def optional_string_values(self):
         return []
 
diff --git a/python/enolib/elements/section.py b/python/enolib/elements/section.py
index bf5d8d4..4963068 100644
--- a/python/enolib/elements/section.py
+++ b/python/enolib/elements/section.py
@@ -211,6 +211,8 @@ class Section(ElementBase):
     def _missing_error(self, element):
         if isinstance(element, missing_field.MissingField):
             raise Validation.missing_element(self._context, element._key, self._instruction, 'missing_field')
+        elif isinstance(element, missing_empty.MissingEmpty):
+            raise Validation.missing_element(self._context, element._key, self._instruction, 'missing_empty')
         elif isinstance(element, missing_fieldset.MissingFieldset):
             raise Validation.missing_element(self._context, element._key, self._instruction, 'missing_fieldset')
         elif isinstance(element, missing_list.MissingList):
-- 
2.43.0


From af61369451f7f55eb645604d95e6899d2a41fcbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:19 +0000
Subject: [PATCH 26/55] fix: an empty key is a key, not the absence of one

---
 python/enolib/elements/fieldset.py |  4 ++--
 python/enolib/elements/section.py  | 22 +++++++++++-----------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/python/enolib/elements/fieldset.py b/python/enolib/elements/fieldset.py
index 2d8b37e..f6d2a46 100644
--- a/python/enolib/elements/fieldset.py
+++ b/python/enolib/elements/fieldset.py
@@ -25,7 +25,7 @@ class Fieldset(ElementBase):
     def _entry(self, key, *, required=None):
         self._touched = True
 
-        if not key:
+        if key is None:
             entries = self._entries()
         else:
             entries_map = self._entries(True)
@@ -102,7 +102,7 @@ class Fieldset(ElementBase):
     def entries(self, key=None):
         self._touched = True
 
-        if not key:
+        if key is None:
             return self._entries()
         else:
             entries_map = self._entries(True)
diff --git a/python/enolib/elements/section.py b/python/enolib/elements/section.py
index 4963068..1cebee4 100644
--- a/python/enolib/elements/section.py
+++ b/python/enolib/elements/section.py
@@ -24,7 +24,7 @@ class Section(ElementBase):
     def _element(self, key, *, required=None):
         self._touched = True
 
-        if not key:
+        if key is None:
             elements = self._elements()
         else:
             elements_map = self._elements(True)
@@ -59,7 +59,7 @@ class Section(ElementBase):
     def _empty(self, key, *, required=None):
         self._touched = True
 
-        if not key:
+        if key is None:
             elements = self._elements()
         else:
             elements_map = self._elements(True)
@@ -91,7 +91,7 @@ class Section(ElementBase):
     def _field(self, key, *, required=None):
         self._touched = True
 
-        if not key:
+        if key is None:
             elements = self._elements()
         else:
             elements_map = self._elements(True)
@@ -125,7 +125,7 @@ class Section(ElementBase):
     def _fieldset(self, key, *, required=None):
         self._touched = True
 
-        if not key:
+        if key is None:
             elements = self._elements()
         else:
             elements_map = self._elements(True)
@@ -179,7 +179,7 @@ class Section(ElementBase):
     def _list(self, key, *, required=None):
         self._touched = True
 
-        if not key:
+        if key is None:
             elements = self._elements()
         else:
             elements_map = self._elements(True)
@@ -225,7 +225,7 @@ class Section(ElementBase):
     def _section(self, key, *, required=None):
         self._touched = True
 
-        if not key:
+        if key is None:
             elements = self._elements()
         else:
             elements_map = self._elements(True)
@@ -296,7 +296,7 @@ class Section(ElementBase):
     def elements(self, key=None):
         self._touched = True
 
-        if not key:
+        if key is None:
             return self._elements()
         else:
             elements_map = self._elements(True)
@@ -311,7 +311,7 @@ class Section(ElementBase):
     def fields(self, key=None):
         self._touched = True
 
-        if not key:
+        if key is None:
             elements = self._elements()
         else:
             elements_map = self._elements(True)
@@ -333,7 +333,7 @@ class Section(ElementBase):
     def fieldsets(self, key=None):
         self._touched = True
 
-        if not key:
+        if key is None:
             elements = self._elements()
         else:
             elements_map = self._elements(True)
@@ -353,7 +353,7 @@ class Section(ElementBase):
     def lists(self, key=None):
         self._touched = True
 
-        if not key:
+        if key is None:
             elements = self._elements()
         else:
             elements_map = self._elements(True)
@@ -415,7 +415,7 @@ class Section(ElementBase):
     def sections(self, key=None):
         self._touched = True
 
-        if not key:
+        if key is None:
             elements = self._elements()
         else:
             elements_map = self._elements(True)
-- 
2.43.0


From 2261062792bc2aaca45dc010659bee161ceccc92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:21 +0000
Subject: [PATCH 27/55] fix: the key is optional in all optional queries

---
 python/enolib/elements/section.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/python/enolib/elements/section.py b/python/enolib/elements/section.py
index 1cebee4..3e2fcb4 100644
--- a/python/enolib/elements/section.py
+++ b/python/enolib/elements/section.py
@@ -367,22 +367,22 @@ class Section(ElementBase):
 
         return [cast(element) for element in elements]
 
-    def optional_element(self, key):
+    def optional_element(self, key=None):
         return self._element(key, required=False)
 
-    def optional_empty(self, key):
+    def optional_empty(self, key=None):
         return self._empty(key, required=False)
 
-    def optional_field(self, key):
+    def optional_field(self, key=None):
         return self._field(key, required=False)
 
-    def optional_fieldset(self, key):
+    def optional_fieldset(self, key=None):
         return self._fieldset(key, required=False)
 
-    def optional_list(self, key):
+    def optional_list(self, key=None):
         return self._list(key, required=False)
 
-    def optional_section(self, key):
+    def optional_section(self, key=None):
         return self._section(key, required=False)
 
     def parent(self):
-- 
2.43.0


From ffe572643f930f8074711fd4c77a69519dce0170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:50 +0000
Subject: [PATCH 28/55] fix: deep copies also merge sections that their
 template copied itself

---
 python/enolib/resolver.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/python/enolib/resolver.py b/python/enolib/resolver.py
index 1150f5c..0c65029 100644
--- a/python/enolib/resolver.py
+++ b/python/enolib/resolver.py
@@ -63,7 +63,7 @@ class Resolver:
                 else:
                     merge_map[section_element['key']] = { 'section': section_element }
 
-            for section_element in template['elements']:
+            for section_element in self.elements(template):
                 if section_element['key'] in merge_map:
                     merger = merge_map[section_element['key']]
 
@@ -79,6 +79,18 @@ class Resolver:
                 if merger and 'template' in merger:
                     self.consolidate_sections(merger['section'], merger['template'], True)
 
+    # Unlike in the context these are not cached, because what is copied may still be unresolved here
+    def elements(self, section):
+        if 'mirror' in section:
+            return self.elements(section['mirror'])
+
+        if not 'extend' in section:
+            return section['elements']
+
+        own_keys = { element['key'] for element in section['elements'] }
+
+        return [element for element in self.elements(section['extend']) if element['key'] not in own_keys] + section['elements']
+
     def mirror(self, element, template):
         if 'mirror' in template:
             element['mirror'] = template['mirror']
-- 
2.43.0


From 924ddcfea01fc9385016281216477876ba58c15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:52 +0000
Subject: [PATCH 29/55] fix: report cyclic dependencies that arise from merging
 sections in deep copies

---
 python/enolib/errors/parsing.py |  4 ++--
 python/enolib/resolver.py       | 17 +++++++++++++----
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/python/enolib/errors/parsing.py b/python/enolib/errors/parsing.py
index 9bca7e7..2d9dfdb 100644
--- a/python/enolib/errors/parsing.py
+++ b/python/enolib/errors/parsing.py
@@ -12,10 +12,10 @@ class Parsing:
         feedback_chain = instruction_chain[first_occurrence:]
 
         # Sections also depend on the sections inside them, so not every link in the chain is a copy
-        copy_instruction = next(
+        copy_instruction = next((
             element for index, element in reversed(list(enumerate(feedback_chain)))
             if 'copy' in element and element['copy']['template'] is feedback_chain[(index + 1) % len(feedback_chain)]
-        )
+        ), feedback_chain[0])
 
         reporter = context.reporter(context)
 
diff --git a/python/enolib/resolver.py b/python/enolib/resolver.py
index 0c65029..2f7ed9a 100644
--- a/python/enolib/resolver.py
+++ b/python/enolib/resolver.py
@@ -41,7 +41,7 @@ class Resolver:
                   template['type'] is InstructionType.MULTILINE_FIELD_BEGIN):
                 raise Parsing.missing_list_for_list_item(self._context, element['items'][0])
 
-    def consolidate_sections(self, section, template, deep_merge):
+    def consolidate_sections(self, section, template, deep_copy=None):
         if 'comments' in template and not 'comments' in section:
             section['comments'] = template['comments']
 
@@ -52,7 +52,7 @@ class Resolver:
             #       Possibly also elswhere (e.g. up there in the mirror branch?)
             section['extend'] = template
 
-            if not deep_merge:
+            if deep_copy is None:
                 return
 
             merge_map = {}
@@ -77,7 +77,16 @@ class Resolver:
 
             for merger in merge_map.values():
                 if merger and 'template' in merger:
-                    self.consolidate_sections(merger['section'], merger['template'], True)
+                    if self.copied_from(merger['template'], merger['section']):
+                        raise Parsing.cyclic_dependency(self._context, deep_copy, [deep_copy])
+
+                    self.consolidate_sections(merger['section'], merger['template'], deep_copy)
+
+    def copied_from(self, section, origin):
+        while section is not None and section is not origin:
+            section = section.get('mirror') or section.get('extend')
+
+        return section is origin
 
     # Unlike in the context these are not cached, because what is copied may still be unresolved here
     def elements(self, section):
@@ -127,7 +136,7 @@ class Resolver:
             if 'copy'in template or 'deep_resolve' in template:
                 self.resolve_section(template, [*previous_sections, section])
 
-            self.consolidate_sections(section, template, 'deep_copy' in section)
+            self.consolidate_sections(section, template, section if 'deep_copy' in section else None)
 
             del section['copy']
 
-- 
2.43.0


From 1f62671343d6310ebe4605d84844a8a14a894246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:57 +0000
Subject: [PATCH 30/55] fix: missing values of entries and items are selected
 up to their last continuation

---
 python/enolib/errors/validation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/enolib/errors/validation.py b/python/enolib/errors/validation.py
index 03c0d7e..0527451 100644
--- a/python/enolib/errors/validation.py
+++ b/python/enolib/errors/validation.py
@@ -74,7 +74,7 @@ class Validation:
 
         snippet = context.reporter(context).report_element(element).snippet()
 
-        if element['type'] is InstructionType.FIELD and 'continuations' in element:
+        if 'continuations' in element:
             selection['to'] = cursor(element['continuations'][-1], 'line', END)
         else:
             selection['to'] = cursor(element, 'line', END)
-- 
2.43.0


From 57aeea248de4d5cb3106ab95f831f88d67c195d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:08 +0000
Subject: [PATCH 31/55] fix: errors do not share their selection

---
 python/enolib/error_types.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/enolib/error_types.py b/python/enolib/error_types.py
index f4487d3..22c4db0 100644
--- a/python/enolib/error_types.py
+++ b/python/enolib/error_types.py
@@ -2,9 +2,10 @@ class Error(Exception):
     def __init__(self, text, snippet, selection):
         super().__init__(f"{text}\n\n{snippet}")
 
-        self.cursor = selection['from']
+        # The selection of an error on the document is shared between all of these errors
+        self.selection = { 'from': dict(selection['from']), 'to': dict(selection['to']) }
+        self.cursor = self.selection['from']
         self.message = f"{text}\n\n{snippet}"
-        self.selection = selection
         self.snippet = snippet
         self.text = text
 
-- 
2.43.0


From 8ff93fb7bbbdb7c74a16988c83e85526cea5ffde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:37 +0000
Subject: [PATCH 32/55] fix: (js) a key, operator or template never continues
 on the next line

---
 javascript/lib/grammar_matcher.js | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/javascript/lib/grammar_matcher.js b/javascript/lib/grammar_matcher.js
index 437356f..2e478c2 100644
--- a/javascript/lib/grammar_matcher.js
+++ b/javascript/lib/grammar_matcher.js
@@ -52,7 +52,7 @@ exports.SECTION_KEY_ESCAPED_INDEX = 15;
 // # `key` <(<) template
 const SECTION_KEY = `(?:${SECTION_KEY_UNESCAPED}|${SECTION_KEY_ESCAPED})`;
 const SECTION_TEMPLATE = `(?:(<(?!<)|<<)[^\\S\\n]*${REQUIRED})?`;
-const SECTION = `${SECTION_OPERATOR}\\s*${SECTION_KEY}[^\\S\\n]*${SECTION_TEMPLATE}`;
+const SECTION = `${SECTION_OPERATOR}[^\\S\\n]*${SECTION_KEY}[^\\S\\n]*${SECTION_TEMPLATE}`;
 exports.SECTION_COPY_OPERATOR_INDEX = 16;
 exports.SECTION_TEMPLATE_INDEX = 17;
 
@@ -83,10 +83,10 @@ exports.FIELDSET_ENTRY_OPERATOR_INDEX = 23;
 exports.FIELDSET_ENTRY_VALUE_INDEX = 24;
 
 // < template
-const TEMPLATE = `<\\s*${REQUIRED}`;
+const TEMPLATE = `<[^\\S\\n]*${REQUIRED}`;
 exports.TEMPLATE_INDEX = 25;
 
-const LATE_DETERMINED = `${KEY}\\s*(?:${ELEMENT_OR_FIELD}|${FIELDSET_ENTRY}|${TEMPLATE})`;
+const LATE_DETERMINED = `${KEY}[^\\S\\n]*(?:${ELEMENT_OR_FIELD}|${FIELDSET_ENTRY}|${TEMPLATE})`;
 
 const NOT_EMPTY = `(?:${EARLY_DETERMINED}|${LATE_DETERMINED})`;
 
-- 
2.43.0


From a2c8c8d08fc00607ac6bd4bc390fc77f264b2ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:37 +0000
Subject: [PATCH 33/55] fix: (js) report sections that contain empty or copied
 elements

---
 javascript/lib/reporters/reporter.js | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/javascript/lib/reporters/reporter.js b/javascript/lib/reporters/reporter.js
index e241794..34f534e 100644
--- a/javascript/lib/reporters/reporter.js
+++ b/javascript/lib/reporters/reporter.js
@@ -44,7 +44,8 @@ class Reporter {
         if(element.type === SECTION) {
           traverse(element);
         } else if(element.type === FIELD) {
-          for(const continuation of element.continuations) {
+          // Missing on copies
+          for(const continuation of element.continuations || []) {
             this._index[continuation.line] = continuation;
           }
         } else if(element.type === MULTILINE_FIELD_BEGIN) {
@@ -57,7 +58,7 @@ class Reporter {
             this._index[line.line] = line;
           }
         } else if(element.type === LIST) {
-          for(const item of element.items) {
+          for(const item of element.items || []) {
             indexComments(item);
 
             this._index[item.line] = item;
@@ -67,7 +68,7 @@ class Reporter {
             }
           }
         } else if(element.type === FIELDSET) {
-          for(const entry of element.entries) {
+          for(const entry of element.entries || []) {
             indexComments(entry);
 
             this._index[entry.line] = entry;
@@ -90,10 +91,7 @@ class Reporter {
   _tagContinuations(element, tag) {
     let scanLine = element.line + 1;
 
-    if(element.continuations.length === 0)
-      return scanLine;
-
-    for(const continuation of element.continuations) {
+    for(const continuation of element.continuations || []) {
       while(scanLine < continuation.line) {
         this._snippet[scanLine] = tag;
         scanLine++;
@@ -109,10 +107,7 @@ class Reporter {
   _tagContinuables(element, collection, tag) {
     let scanLine = element.line + 1;
 
-    if(element[collection].length === 0)
-      return scanLine;
-
-    for(const continuable of element[collection]) {
+    for(const continuable of element[collection] || []) {
       while(scanLine < continuable.line) {
         this._snippet[scanLine] = tag;
         scanLine++;
@@ -131,7 +126,7 @@ class Reporter {
       return this._tagContinuations(element, tag);
     } else if(element.type === LIST) {
       return this._tagContinuables(element, 'items', tag);
-    } else if(element.type === FIELDSET && element.entries.length > 0) {
+    } else if(element.type === FIELDSET) {
       return this._tagContinuables(element, 'entries', tag);
     } else if(element.type === MULTILINE_FIELD_BEGIN) {
       for(const line of element.lines) {
@@ -148,6 +143,8 @@ class Reporter {
       }
     } else if(element.type === SECTION) {
       return this._tagSection(element, tag);
+    } else {
+      return element.line + 1;
     }
   }
 
-- 
2.43.0


From 68e40709336ce7bdeaff63e848b3f807eed8f244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:45 +0000
Subject: [PATCH 34/55] fix: (js) comments right above an erroneous line show
 up in reports

---
 javascript/lib/reporters/reporter.js | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/javascript/lib/reporters/reporter.js b/javascript/lib/reporters/reporter.js
index 34f534e..13ca284 100644
--- a/javascript/lib/reporters/reporter.js
+++ b/javascript/lib/reporters/reporter.js
@@ -27,6 +27,13 @@ class Reporter {
   }
 
   _buildIndex() {
+    // Lines that belong to nothing (e.g. comments right above the line of a parse error) are shown as they are
+    let begin = 0;
+    for(const [line, content] of this._context._input.split('\n').entries()) {
+      this._index[line] = { line, ranges: { line: [begin, begin + content.length] } };
+      begin += content.length + 1;
+    }
+
     const indexComments = element => {
       if(element.hasOwnProperty('comments')) {
         for(const comment of element.comments) {
-- 
2.43.0


From 0132311c5d8d7feb829163750d3eab858256e533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:24 +0000
Subject: [PATCH 35/55] fix: (js) an unterminated multiline field on the last
 line adds no line to the document

---
 javascript/lib/analyze.js | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/javascript/lib/analyze.js b/javascript/lib/analyze.js
index aff9c34..46f455c 100644
--- a/javascript/lib/analyze.js
+++ b/javascript/lib/analyze.js
@@ -468,14 +468,16 @@ exports.analyze = function() {
           const endofLineIndex = this._input.indexOf('\n', index);
 
           if(endofLineIndex === -1) {
-            lastNonSectionElement.lines.push({
-              line: line,
-              ranges: {
-                line: [index, this._input.length],
-                value: [index, this._input.length]  // TODO: line range === value range, drop value range? (see how the custom terminal reporter eg. handles this for syntax coloring, then revisit)
-              },
-              type: MULTILINE_FIELD_VALUE
-            });
+            if(index <= this._input.length) {
+              lastNonSectionElement.lines.push({
+                line: line,
+                ranges: {
+                  line: [index, this._input.length],
+                  value: [index, this._input.length]  // TODO: line range === value range, drop value range? (see how the custom terminal reporter eg. handles this for syntax coloring, then revisit)
+                },
+                type: MULTILINE_FIELD_VALUE
+              });
+            }
 
             throw errors.unterminatedMultilineField(this, instruction);
           } else {
-- 
2.43.0


From 2a58a10de695faa069f32e939d66d99a431a611f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:32 +0000
Subject: [PATCH 36/55] fix: (js) a missing template is reported wherever in a
 chain of copies it is missing

---
 javascript/lib/resolve.js | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/javascript/lib/resolve.js b/javascript/lib/resolve.js
index d30e10a..91aaa36 100644
--- a/javascript/lib/resolve.js
+++ b/javascript/lib/resolve.js
@@ -182,7 +182,9 @@ exports.resolve = function() {
     for(const copy of unresolvedNonSectionElements) {
       if(!copy.hasOwnProperty('template'))
         throw errors.nonSectionElementNotFound(this, copy.targets[0]);
+    }
 
+    for(const copy of unresolvedNonSectionElements) {
       for(const target of copy.targets) {
         if(!target.hasOwnProperty('copy')) continue;
 
@@ -193,7 +195,9 @@ exports.resolve = function() {
     for(const copy of unresolvedSections) {
       if(!copy.hasOwnProperty('template'))
         throw errors.sectionNotFound(this, copy.targets[0]);
+    }
 
+    for(const copy of unresolvedSections) {
       for(const target of copy.targets) {
         if(!target.hasOwnProperty('copy')) continue;
 
-- 
2.43.0


From bd6080c72830baf17e1c1f2a6bd45edc733d2125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:43 +0000
Subject: [PATCH 37/55] fix: (js) deep copies may have sections that their
 template does not have

---
 javascript/lib/resolve.js | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/javascript/lib/resolve.js b/javascript/lib/resolve.js
index 91aaa36..d28ef31 100644
--- a/javascript/lib/resolve.js
+++ b/javascript/lib/resolve.js
@@ -85,10 +85,9 @@ const consolidateSections = (context, section, template, deepMerge) => {
     }
 
     for(const merger of Object.values(mergeMap)) {
-      if(merger === false) continue;
-      // TODO: merger.template can be undefined if a section is applicable for
-      //       merging but no matching merge template is present? (see python impl.)
-      //       Note: No spec in js impl. reported this so far, unlike in python impl.
+      // No template if a section is applicable for merging but the template has no such section
+      if(merger === false || !merger.hasOwnProperty('template')) continue;
+
       consolidateSections(context, merger.section, merger.template, true);
     }
   }
-- 
2.43.0


From 6bff12a55eeefb7037a28c3455fb9a24615b67d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:51 +0000
Subject: [PATCH 38/55] fix: (js) report cyclic dependencies that lead through
 nested sections

---
 javascript/lib/errors/parsing.js | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/javascript/lib/errors/parsing.js b/javascript/lib/errors/parsing.js
index 444b3aa..6fe5388 100644
--- a/javascript/lib/errors/parsing.js
+++ b/javascript/lib/errors/parsing.js
@@ -20,15 +20,10 @@ exports.errors = {
     const firstOccurrence = instructionChain.indexOf(instruction);
     const feedbackChain = instructionChain.slice(firstOccurrence);
 
-    const firstInstruction = feedbackChain[0];
-    const lastInstruction = feedbackChain[feedbackChain.length - 1];
-
-    let copyInstruction;
-    if(lastInstruction.hasOwnProperty('template')) {
-      copyInstruction = lastInstruction;
-    } else if(firstInstruction.hasOwnProperty('template')) {
-      copyInstruction = firstInstruction;
-    }
+    // Sections also depend on the sections inside them, so not every link in the chain is a copy
+    const copyInstruction = feedbackChain.filter((element, index) =>
+      element.hasOwnProperty('copy') && element.copy.template === feedbackChain[(index + 1) % feedbackChain.length]
+    ).pop() || feedbackChain[0];
 
     const reporter = new context.reporter(context);
 
-- 
2.43.0


From 8b1238f43c56822e05a6f5610ea401d7a337a01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:26 +0000
Subject: [PATCH 39/55] fix: (js) deep copies also merge sections that their
 template copied itself

---
 javascript/lib/resolve.js | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/javascript/lib/resolve.js b/javascript/lib/resolve.js
index d28ef31..70068aa 100644
--- a/javascript/lib/resolve.js
+++ b/javascript/lib/resolve.js
@@ -70,7 +70,7 @@ const consolidateSections = (context, section, template, deepMerge) => {
       }
     }
 
-    for(const elementInstruction of template.elements) {
+    for(const elementInstruction of elements(template)) {
       if(mergeMap.hasOwnProperty(elementInstruction.key)) {
         const merger = mergeMap[elementInstruction.key];
 
@@ -93,6 +93,19 @@ const consolidateSections = (context, section, template, deepMerge) => {
   }
 };
 
+// Unlike in the context these are not cached, because what is copied may still be unresolved here
+const elements = section => {
+  if(section.hasOwnProperty('mirror'))
+    return elements(section.mirror);
+
+  if(!section.hasOwnProperty('extend'))
+    return section.elements;
+
+  const ownKeys = new Set(section.elements.map(element => element.key));
+
+  return [...elements(section.extend).filter(element => !ownKeys.has(element.key)), ...section.elements];
+};
+
 const mirror = (element, template) => {
   if(template.hasOwnProperty('mirror')) {
     element.mirror = template.mirror;
-- 
2.43.0


From dd0558d4e611429c9d90b644b7241ed9a9379131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:36 +0000
Subject: [PATCH 40/55] fix: (js) report cyclic dependencies that arise from
 merging sections in deep copies

---
 javascript/lib/resolve.js | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/javascript/lib/resolve.js b/javascript/lib/resolve.js
index 70068aa..386da57 100644
--- a/javascript/lib/resolve.js
+++ b/javascript/lib/resolve.js
@@ -46,7 +46,7 @@ const consolidateNonSectionElements = (context, element, template) => {
   }
 };
 
-const consolidateSections = (context, section, template, deepMerge) => {
+const consolidateSections = (context, section, template, deepCopy) => {
   if(template.hasOwnProperty('comments') && !section.hasOwnProperty('comments')) {
     section.comments = template.comments;
   }
@@ -58,7 +58,7 @@ const consolidateSections = (context, section, template, deepMerge) => {
     //       Possibly also elswhere (e.g. up there in the mirror branch?)
     section.extend = template;
 
-    if(!deepMerge) return;
+    if(!deepCopy) return;
 
     const mergeMap = {};
 
@@ -88,11 +88,22 @@ const consolidateSections = (context, section, template, deepMerge) => {
       // No template if a section is applicable for merging but the template has no such section
       if(merger === false || !merger.hasOwnProperty('template')) continue;
 
-      consolidateSections(context, merger.section, merger.template, true);
+      if(copiedFrom(merger.template, merger.section))
+        throw errors.cyclicDependency(context, deepCopy, [deepCopy]);
+
+      consolidateSections(context, merger.section, merger.template, deepCopy);
     }
   }
 };
 
+const copiedFrom = (section, origin) => {
+  while(section && section !== origin) {
+    section = section.mirror || section.extend;
+  }
+
+  return section === origin;
+};
+
 // Unlike in the context these are not cached, because what is copied may still be unresolved here
 const elements = section => {
   if(section.hasOwnProperty('mirror'))
@@ -150,7 +161,7 @@ const resolveSection = (context, section, previousSections = []) => {
       resolveSection(context, template, [...previousSections, section]);
     }
 
-    consolidateSections(context, section, template, section.deepCopy);
+    consolidateSections(context, section, template, section.deepCopy ? section : null);
 
     delete section.copy;
   }
-- 
2.43.0


From 80f3620e2280b223d7882f155cfa6a481d49ce6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:46 +0000
Subject: [PATCH 41/55] fix: (js) elements copied from a template precede the
 own elements of a section

---
 javascript/lib/elements/section.js | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/javascript/lib/elements/section.js b/javascript/lib/elements/section.js
index e9ffed3..23b6c8d 100644
--- a/javascript/lib/elements/section.js
+++ b/javascript/lib/elements/section.js
@@ -198,25 +198,25 @@ class Section extends ElementBase {
     if(section.hasOwnProperty('mirror')) {
       this._instantiateElements(section.mirror);
     } else {
-      this._instantiatedElements.push(
-        ...section.elements.filter(element =>
-          !this._instantiatedElementsMap.hasOwnProperty(element.key)
-        ).map(element => {
-          const instance = new section_element_module.SectionElement(this._context, element, this);
-
-          if(this._instantiatedElementsMap.hasOwnProperty(element.key)) {
-            this._instantiatedElementsMap[element.key].push(instance);
-          } else {
-            this._instantiatedElementsMap[element.key] = [instance];
-          }
+      const nativeElements = section.elements.filter(element =>
+        !this._instantiatedElementsMap.hasOwnProperty(element.key)
+      ).map(element => {
+        const instance = new section_element_module.SectionElement(this._context, element, this);
+
+        if(this._instantiatedElementsMap.hasOwnProperty(element.key)) {
+          this._instantiatedElementsMap[element.key].push(instance);
+        } else {
+          this._instantiatedElementsMap[element.key] = [instance];
+        }
 
-          return instance;
-        })
-      );
+        return instance;
+      });
 
       if(section.hasOwnProperty('extend')) {
         this._instantiateElements(section.extend);
       }
+
+      this._instantiatedElements.push(...nativeElements);
     }
   }
 
-- 
2.43.0


From 5893c2f7515e31779914caaa781140f54b22141f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:54 +0000
Subject: [PATCH 42/55] fix: (js) all elements required of a fieldset that is
 an empty element

---
 javascript/lib/elements/section.js | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/javascript/lib/elements/section.js b/javascript/lib/elements/section.js
index 23b6c8d..4200727 100644
--- a/javascript/lib/elements/section.js
+++ b/javascript/lib/elements/section.js
@@ -326,9 +326,9 @@ class Section extends ElementBase {
     this._allElementsRequired = required;
 
     for(const element of this._elements()) {
-      if(element._instruction.type === SECTION && element._yielded) {
+      if(element._section) {
         element.toSection().allElementsRequired(required);
-      } else if(element._instruction.type === FIELDSET && element._yielded) {
+      } else if(element._fieldset) {
         element.toFieldset().allEntriesRequired(required);
       }
     }
-- 
2.43.0


From 30752de0ec45d0bc131cf7beb54498bc96631e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:01 +0000
Subject: [PATCH 43/55] fix: (js) a missing empty is reported as such and a
 missing list has a length

---
 javascript/lib/elements/missing/missing_list.js | 4 ++++
 javascript/lib/elements/section.js              | 4 +++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/javascript/lib/elements/missing/missing_list.js b/javascript/lib/elements/missing/missing_list.js
index 43e587f..a210a9b 100644
--- a/javascript/lib/elements/missing/missing_list.js
+++ b/javascript/lib/elements/missing/missing_list.js
@@ -9,6 +9,10 @@ class MissingList extends MissingElementBase {
     return [];
   }
 
+  length() {
+    return 0;
+  }
+
   optionalStringValues() {
     return [];
   }
diff --git a/javascript/lib/elements/section.js b/javascript/lib/elements/section.js
index 4200727..a7242ff 100644
--- a/javascript/lib/elements/section.js
+++ b/javascript/lib/elements/section.js
@@ -259,7 +259,9 @@ class Section extends ElementBase {
 
   // TODO: Can probably be simplified again - e.g. pushed back into Missing* classes themselves - also check if MissingFieldsetEntry addition is made use of already
   _missingError(element) {
-    if(element instanceof missing_field_module.MissingField) {
+    if(element instanceof missing_empty_module.MissingEmpty) {
+      throw errors.missingElement(this._context, element._key, this._instruction, 'missingEmpty');
+    } else if(element instanceof missing_field_module.MissingField) {
       throw errors.missingElement(this._context, element._key, this._instruction, 'missingField');
     } else if(element instanceof missing_fieldset_module.MissingFieldset) {
       throw errors.missingElement(this._context, element._key, this._instruction, 'missingFieldset');
-- 
2.43.0


From ad2e07844e0c2936c9c5c4b0a03dc0b2277f5fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:24 +0000
Subject: [PATCH 44/55] fix: (js) toFieldsetEntry of looked up elements

---
 javascript/lib/elements/element.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/javascript/lib/elements/element.js b/javascript/lib/elements/element.js
index 786bd64..8a9c267 100644
--- a/javascript/lib/elements/element.js
+++ b/javascript/lib/elements/element.js
@@ -13,7 +13,7 @@ class Element extends SectionElement {
       if(this._instruction.type !== FIELDSET_ENTRY)
         throw errors.unexpectedElementType(this._context, null, this._instruction, 'expectedFieldsetEntry');
 
-      this._fieldsetEntry = new fieldset_entry_module.Fieldset(this._context, this._instruction); // TODO: parent missing? or: what if casting Element to Field (inherited from SectionElement) but does not have parent because originating from lookup? investigate
+      this._fieldsetEntry = new fieldset_entry_module.FieldsetEntry(this._context, this._instruction); // TODO: parent missing? or: what if casting Element to Field (inherited from SectionElement) but does not have parent because originating from lookup? investigate
     }
 
     return this._fieldsetEntry;
-- 
2.43.0


From f991c669b74ba15129c477e6d2373e3f31e72ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:32 +0000
Subject: [PATCH 45/55] fix: (js) all line breaks in values are escaped in the
 string representation of elements

---
 javascript/lib/elements/value_element_base.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/javascript/lib/elements/value_element_base.js b/javascript/lib/elements/value_element_base.js
index c00b045..accdd4c 100644
--- a/javascript/lib/elements/value_element_base.js
+++ b/javascript/lib/elements/value_element_base.js
@@ -13,7 +13,7 @@ class ValueElementBase extends ElementBase {
       value = value.substring(0, 11) + '...';
     }
 
-    return value.replace('\n', '\\n');
+    return value.replace(/\n/g, '\\n');
   }
 
   _value(loader, required) {
-- 
2.43.0


From 46489b1b41a38a58e11f71fd6c1ab9ef390e83a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:00 +0000
Subject: [PATCH 46/55] fix: (js) escape the source in html reports

---
 javascript/lib/reporters/html_reporter.js | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/javascript/lib/reporters/html_reporter.js b/javascript/lib/reporters/html_reporter.js
index 3bb1a44..fcc39ec 100644
--- a/javascript/lib/reporters/html_reporter.js
+++ b/javascript/lib/reporters/html_reporter.js
@@ -20,6 +20,7 @@ const HTML_ESCAPE = {
 };
 
 const escape = string => string.replace(/[&<>"'/]/g, c => HTML_ESCAPE[c]);
+const escapeSource = source => source.replace(/[&<>"']/g, c => HTML_ESCAPE[c]); // usually a path
 
 class HtmlReporter extends Reporter {
   _line(line, tag) {
@@ -62,7 +63,7 @@ class HtmlReporter extends Reporter {
                                  .filter(line => line !== undefined)
                                  .join('');
 
-    return `<div>${this._context.source ? `<div>${this._context.source}</div>` : ''}<pre class="eno-report">${columnsHeader}${snippet}</pre></div>`;
+    return `<div>${this._context.source ? `<div>${escapeSource(this._context.source)}</div>` : ''}<pre class="eno-report">${columnsHeader}${snippet}</pre></div>`;
   }
 }
 
-- 
2.43.0


From d84694443f3e1dee4673857152d7fac976d74d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:33 +0000
Subject: [PATCH 47/55] fix: (js) errors on copied and on empty elements

---
 javascript/lib/errors/selections.js | 6 +++---
 javascript/lib/errors/validation.js | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/javascript/lib/errors/selections.js b/javascript/lib/errors/selections.js
index 8efc04e..42a325a 100644
--- a/javascript/lib/errors/selections.js
+++ b/javascript/lib/errors/selections.js
@@ -13,11 +13,11 @@ const {
 // TODO: Strongly consider reverse iteration and/or last subinstruction checks to speed up some lastIn/etc. algorithms here
 
 const lastIn = element => {
-  if((element.type === FIELD || element.type === LIST_ITEM || element.type === FIELDSET_ENTRY) && element.continuations.length > 0) {
+  if((element.type === FIELD || element.type === LIST_ITEM || element.type === FIELDSET_ENTRY) && element.continuations && element.continuations.length > 0) {
     return element.continuations[element.continuations.length - 1];
-  } else if(element.type === LIST && element.items.length > 0) {
+  } else if(element.type === LIST && element.items && element.items.length > 0) {
     return lastIn(element.items[element.items.length - 1]);
-  } else if(element.type === FIELDSET && element.entries.length > 0) {
+  } else if(element.type === FIELDSET && element.entries && element.entries.length > 0) {
     return lastIn(element.entries[element.entries.length - 1]);
   } else if(element.type === MULTILINE_FIELD_BEGIN) {
     return element.end;
diff --git a/javascript/lib/errors/validation.js b/javascript/lib/errors/validation.js
index affcc32..c21cb1a 100644
--- a/javascript/lib/errors/validation.js
+++ b/javascript/lib/errors/validation.js
@@ -82,7 +82,7 @@ exports.errors = {
 
     const snippet = new context.reporter(context).reportElement(element).snippet();
 
-    if(element.type === FIELD && element.continuations.length > 0) {
+    if(element.continuations && element.continuations.length > 0) {
       selection.to = cursor(element.continuations[element.continuations.length - 1], 'line', END);
     } else {
       selection.to = cursor(element, 'line', END);
@@ -146,7 +146,7 @@ exports.errors = {
         select.from = cursor(element, 'line', END);
       }
 
-      if(element.continuations.length > 0) {
+      if(element.continuations && element.continuations.length > 0) {
         select.to = cursor(element.continuations[element.continuations.length - 1], 'line', END);
       } else if(element.ranges.hasOwnProperty('value')) {
         select.to = cursor(element, 'value', END);
-- 
2.43.0


From 22bc5ba2137dbbcb93c5801ad6e5e7cdeea23117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:41 +0000
Subject: [PATCH 48/55] fix: (js) look up the line continuations of the last
 entry or item

---
 javascript/lib/errors/selections.js | 1 +
 javascript/lib/lookup.js            | 9 +++++----
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/javascript/lib/errors/selections.js b/javascript/lib/errors/selections.js
index 42a325a..29143e1 100644
--- a/javascript/lib/errors/selections.js
+++ b/javascript/lib/errors/selections.js
@@ -71,6 +71,7 @@ exports.DOCUMENT_BEGIN = {
 };
 
 exports.cursor = cursor;
+exports.lastIn = lastIn;
 exports.selection = selection;
 exports.selectComments = selectComments;
 exports.selectElement = element => selection(element, 'line', BEGIN, lastIn(element), 'line', END);
diff --git a/javascript/lib/lookup.js b/javascript/lib/lookup.js
index 915208c..7825c89 100644
--- a/javascript/lib/lookup.js
+++ b/javascript/lib/lookup.js
@@ -1,5 +1,6 @@
 const { Context } = require('./context.js');
 const { Element } = require('./elements/element.js');
+const { lastIn } = require('./errors/selections.js');
 
 // TODO: if(element.type === MULTILINE_FIELD_BEGIN) - Here and elsewhere there will be trouble if the multiline field is really COPIED, because then we can't go through .lines (!) revisit boldly
 
@@ -88,7 +89,7 @@ const checkFieldsetByLine = (fieldset, line) => {
 
   if(!fieldset.hasOwnProperty('entries') ||
      fieldset.entries.length === 0 ||
-     line > fieldset.entries[fieldset.entries.length - 1].line)
+     line > lastIn(fieldset).line)
     return false;
 
   for(const entry of fieldset.entries) {
@@ -113,7 +114,7 @@ const checkFieldsetByIndex = (fieldset, index) => {
 
   if(!fieldset.hasOwnProperty('entries') ||
      fieldset.entries.length === 0 ||
-     index > fieldset.entries[fieldset.entries.length - 1].ranges.line[END])
+     index > lastIn(fieldset).ranges.line[END])
     return false;
 
   for(const entry of fieldset.entries) {
@@ -137,7 +138,7 @@ const checkListByLine = (list, line) => {
     return { element: list, instruction: list };
 
   if(!list.hasOwnProperty('items') ||
-     line > list.items[list.items.length - 1].line)
+     line > lastIn(list).line)
     return false;
 
   for(const item of list.items) {
@@ -161,7 +162,7 @@ const checkListByIndex = (list, index) => {
     return { element: list, instruction: list };
 
   if(!list.hasOwnProperty('items') ||
-     index > list.items[list.items.length - 1].ranges.line[END])
+     index > lastIn(list).ranges.line[END])
     return false;
 
   for(const item of list.items) {
-- 
2.43.0


From ffe59f31e7a559aba4d65d0fcb799ef3601ea635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:50 +0000
Subject: [PATCH 49/55] fix: (js) look up comments by index as by line and
 column

---
 javascript/lib/lookup.js | 1 +
 1 file changed, 1 insertion(+)

diff --git a/javascript/lib/lookup.js b/javascript/lib/lookup.js
index 7825c89..2b18c5e 100644
--- a/javascript/lib/lookup.js
+++ b/javascript/lib/lookup.js
@@ -275,6 +275,7 @@ exports.lookup = (position, input, options = {}) => {
       throw new RangeError(`You are trying to look up an index (${index}) outside of the document's index range (0-${context._input.length})`);
 
     match = checkInSectionByIndex(context._document, index);
+    line = input.substring(0, index).split('\n').length - 1;
   }
 
   const result = {
-- 
2.43.0


From 9b43136a5c2acfa95cb1c2a59bfeccb1d186f8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:22 +0000
Subject: [PATCH 50/55] fix: (js) errors and comments can be requested on the
 document and without comments

---
 javascript/lib/errors/selections.js  | 24 +++++++++++++++---------
 javascript/lib/errors/validation.js  |  6 +++---
 javascript/lib/reporters/reporter.js | 10 ++++++++++
 3 files changed, 28 insertions(+), 12 deletions(-)

diff --git a/javascript/lib/errors/selections.js b/javascript/lib/errors/selections.js
index 29143e1..8d9218b 100644
--- a/javascript/lib/errors/selections.js
+++ b/javascript/lib/errors/selections.js
@@ -1,5 +1,6 @@
 const {
   BEGIN,
+  DOCUMENT,
   END,
   FIELD,
   FIELDSET,
@@ -49,11 +50,20 @@ const selection = (instruction, range, position, ...to) => {
   };
 };
 
+// Every error has a selection of its own
+const documentBegin = () => ({
+  from: { column: 0, index: 0, line: 0 },
+  to: { column: 0, index: 0, line: 0 }
+});
+
 const selectComments = element => {
-  const { comments } = element;
+  if(element.type === DOCUMENT)
+    return documentBegin();
+
+  const comments = element.comments || [];
 
   if(comments.length === 1) {
-    if(comments[0].hasOwnProperty('comment')) {
+    if(comments[0].ranges.hasOwnProperty('comment')) {
       return selection(comments[0], 'comment', BEGIN, END);
     } else {
       return selection(comments[0], 'line', BEGIN, END);
@@ -65,16 +75,12 @@ const selectComments = element => {
   }
 };
 
-exports.DOCUMENT_BEGIN = {
-  from: { column: 0, index: 0, line: 0 },
-  to: { column: 0, index: 0, line: 0 }
-};
-
 exports.cursor = cursor;
+exports.documentBegin = documentBegin;
 exports.lastIn = lastIn;
 exports.selection = selection;
 exports.selectComments = selectComments;
-exports.selectElement = element => selection(element, 'line', BEGIN, lastIn(element), 'line', END);
-exports.selectKey = element => selection(element, 'key', BEGIN, END);
+exports.selectElement = element => element.type === DOCUMENT ? documentBegin() : selection(element, 'line', BEGIN, lastIn(element), 'line', END);
+exports.selectKey = element => element.type === DOCUMENT ? documentBegin() : selection(element, 'key', BEGIN, END);
 exports.selectLine = element => selection(element, 'line', BEGIN, END);
 exports.selectTemplate = element => selection(element, 'template', BEGIN, END);
diff --git a/javascript/lib/errors/validation.js b/javascript/lib/errors/validation.js
index c21cb1a..06a0828 100644
--- a/javascript/lib/errors/validation.js
+++ b/javascript/lib/errors/validation.js
@@ -1,5 +1,5 @@
 const { ValidationError } = require('../error_types.js');
-const { cursor, DOCUMENT_BEGIN, selection, selectComments, selectElement, selectKey } = require('./selections.js');
+const { cursor, documentBegin, selection, selectComments, selectElement, selectKey } = require('./selections.js');
 const {
   BEGIN,
   END,
@@ -42,7 +42,7 @@ exports.errors = {
     return new ValidationError(
       context.messages.missingComment,
       new context.reporter(context).reportLine(element).snippet(), // TODO: Question-tag an empty line before an element with missing comment
-      selection(element, 'line', BEGIN)
+      element.type === DOCUMENT ? documentBegin() : selection(element, 'line', BEGIN)
     );
   },
 
@@ -50,7 +50,7 @@ exports.errors = {
     return new ValidationError(
       key === null ? context.messages[message] : context.messages[message + 'WithKey'](key),
       new context.reporter(context).reportMissingElement(parent).snippet(),
-      parent.type === DOCUMENT ? DOCUMENT_BEGIN : selection(parent, 'line', END)
+      parent.type === DOCUMENT ? documentBegin() : selection(parent, 'line', END)
     );
   },
 
diff --git a/javascript/lib/reporters/reporter.js b/javascript/lib/reporters/reporter.js
index 13ca284..63d8421 100644
--- a/javascript/lib/reporters/reporter.js
+++ b/javascript/lib/reporters/reporter.js
@@ -185,6 +185,9 @@ class Reporter {
   }
 
   reportComments(element) {
+    if(!element.hasOwnProperty('comments'))
+      return this.reportLine(element);
+
     this._snippet[element.line] = INDICATE;
     for(const comment of element.comments) {
       this._snippet[comment.line] = EMPHASIZE;
@@ -194,6 +197,10 @@ class Reporter {
   }
 
   reportElement(element) {
+    // The document itself is not on any line
+    if(element.type === DOCUMENT)
+      return this;
+
     this._snippet[element.line] = EMPHASIZE;
     this._tagElement(element, INDICATE);
 
@@ -210,6 +217,9 @@ class Reporter {
   }
 
   reportLine(instruction) {
+    if(instruction.type === DOCUMENT)
+      return this;
+
     this._snippet[instruction.line] = EMPHASIZE;
 
     return this;
-- 
2.43.0


From eeace921642830f0937432d5faf2bc09c545de57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:30 +0000
Subject: [PATCH 51/55] fix: (js) key errors on list items point to the key of
 their list

---
 javascript/lib/errors/validation.js | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/javascript/lib/errors/validation.js b/javascript/lib/errors/validation.js
index 06a0828..037b7ba 100644
--- a/javascript/lib/errors/validation.js
+++ b/javascript/lib/errors/validation.js
@@ -31,6 +31,11 @@ exports.errors = {
   },
 
   keyError: (context, message, element) => {
+    // The key of a list item is that of its list
+    if(element.type === LIST_ITEM) {
+      element = element.parent;
+    }
+
     return new ValidationError(
       context.messages.keyError(message),
       new context.reporter(context).reportLine(element).snippet(),
-- 
2.43.0


From fbbef5d1b972e39c6f83e2263c22dcf2d4f81aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:38 +0000
Subject: [PATCH 52/55] fix: (js) touching an element that was not queried yet
 touches it

---
 javascript/lib/elements/section_element.js | 26 +++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/javascript/lib/elements/section_element.js b/javascript/lib/elements/section_element.js
index ac2c2b1..64bbf73 100644
--- a/javascript/lib/elements/section_element.js
+++ b/javascript/lib/elements/section_element.js
@@ -19,8 +19,15 @@ const {
 
 class SectionElement extends ElementBase {
   _untouched() {
-    if(!this._yielded)
+    if(this._touched) {
+      this._yieldUnambiguous();
+
+      for(const yielded of [this._empty, this._field, this._fieldset, this._list, this._section]) {
+        if(yielded) { yielded._touched = true; }
+      }
+    } else if(!this._yielded) {
       return this._instruction;
+    }
 
     if(this._empty && !this._empty._touched) return this._instruction;
     if(this._field && !this._field._touched) return this._instruction;
@@ -29,6 +36,19 @@ class SectionElement extends ElementBase {
     if(this._section) return this._section._untouched();
   }
 
+  _yieldUnambiguous() {
+    if(this._yielded)
+      return;
+
+    switch(this._instruction.type) {
+      case FIELD:
+      case MULTILINE_FIELD_BEGIN: this.toField(); break;
+      case FIELDSET: this.toFieldset(); break;
+      case LIST: this.toList(); break;
+      case SECTION: this.toSection(); break;
+    }
+  }
+
   toEmpty() {
     if(!this._empty) {
       if(this._yielded)
@@ -104,8 +124,8 @@ class SectionElement extends ElementBase {
   }
 
   touch() {
-    if(!this._yielded)  // TODO: Here we accutely would need the "marked touched below" with later repropagation mechanism
-      return;
+    this._touched = true;
+    this._yieldUnambiguous();
 
     if(this._empty) { this._empty._touched = true; }
     if(this._field) { this._field._touched = true; }
-- 
2.43.0


From 355954c147c636b6856aa677375d352f922389dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:09 +0000
Subject: [PATCH 53/55] fix: (js) elements and entries may have any key,
 including those of properties that all objects have

---
 javascript/lib/analyze.js           | 20 ++++++++---------
 javascript/lib/context.js           | 32 +++++++++++++--------------
 javascript/lib/elements/fieldset.js | 18 +++++++--------
 javascript/lib/elements/section.js  | 34 ++++++++++++++---------------
 javascript/lib/resolve.js           | 28 ++++++++++++------------
 5 files changed, 66 insertions(+), 66 deletions(-)

diff --git a/javascript/lib/analyze.js b/javascript/lib/analyze.js
index 46f455c..180174f 100644
--- a/javascript/lib/analyze.js
+++ b/javascript/lib/analyze.js
@@ -63,8 +63,8 @@ exports.analyze = function() {
 
   // TODO: Possibly flatten into two properties?
   this.copy = {
-    nonSectionElements: {},
-    sections: {}
+    nonSectionElements: new Map(),
+    sections: new Map()
   };
 
   this._meta = [];
@@ -397,13 +397,13 @@ exports.analyze = function() {
 
         instruction.ranges.template = [templateIndex, templateIndex + instruction.template.length];
 
-        if(this.copy.sections.hasOwnProperty(instruction.template)) {
-          this.copy.sections[instruction.template].targets.push(instruction);
+        if(this.copy.sections.has(instruction.template)) {
+          this.copy.sections.get(instruction.template).targets.push(instruction);
         } else {
-          this.copy.sections[instruction.template] = { targets: [instruction] };
+          this.copy.sections.set(instruction.template, { targets: [instruction] });
         }
 
-        instruction.copy = this.copy.sections[instruction.template];
+        instruction.copy = this.copy.sections.get(instruction.template);
       }
 
       lastContinuableElement = null;
@@ -540,13 +540,13 @@ exports.analyze = function() {
       lastContinuableElement = null;
       lastNonSectionElement = instruction;
 
-      if(this.copy.nonSectionElements.hasOwnProperty(instruction.template)) {
-        this.copy.nonSectionElements[instruction.template].targets.push(instruction);
+      if(this.copy.nonSectionElements.has(instruction.template)) {
+        this.copy.nonSectionElements.get(instruction.template).targets.push(instruction);
       } else {
-        this.copy.nonSectionElements[instruction.template] = { targets: [instruction] };
+        this.copy.nonSectionElements.set(instruction.template, { targets: [instruction] });
       }
 
-      instruction.copy = this.copy.nonSectionElements[instruction.template];
+      instruction.copy = this.copy.nonSectionElements.get(instruction.template);
 
     } else if(match[matcher.COMMENT_OPERATOR_INDEX] !== undefined) {
 
diff --git a/javascript/lib/context.js b/javascript/lib/context.js
index 403e2b5..8de4346 100644
--- a/javascript/lib/context.js
+++ b/javascript/lib/context.js
@@ -89,29 +89,29 @@ class Context {
       return this.elements(section.mirror);
     } else {
       if(!section.hasOwnProperty('computedElements')) {
-        section.computedElementsMap = {};
+        section.computedElementsMap = new Map();
         section.computedElements = section.elements;
 
         for(const element of section.computedElements) {
-          if(section.computedElementsMap.hasOwnProperty(element.key)) {
-            section.computedElementsMap[element.key].push(element);
+          if(section.computedElementsMap.has(element.key)) {
+            section.computedElementsMap.get(element.key).push(element);
           } else {
-            section.computedElementsMap[element.key] = [element];
+            section.computedElementsMap.set(element.key, [element]);
           }
         }
 
         if(section.hasOwnProperty('extend')) {
           const copiedElements = this.elements(section.extend).filter(element =>
-            !section.computedElementsMap.hasOwnProperty(element.key)
+            !section.computedElementsMap.has(element.key)
           );
 
           section.computedElements = copiedElements.concat(section.computedElements);  // TODO: .push(...xy) somehow possible too? (but careful about order, which is relevant)
 
           for(const element of copiedElements) {
-            if(section.computedElementsMap.hasOwnProperty(element.key)) {
-              section.computedElementsMap[element.key].push(element);
+            if(section.computedElementsMap.has(element.key)) {
+              section.computedElementsMap.get(element.key).push(element);
             } else {
-              section.computedElementsMap[element.key] = [element];
+              section.computedElementsMap.set(element.key, [element]);
             }
           }
         }
@@ -126,29 +126,29 @@ class Context {
       return this.entries(fieldset.mirror);
     } else {
       if(!fieldset.hasOwnProperty('computedEntries')) {
-        fieldset.computedEntriesMap = {};
+        fieldset.computedEntriesMap = new Map();
         fieldset.computedEntries = fieldset.entries;
 
         for(const entry of fieldset.computedEntries) {
-          if(fieldset.computedEntriesMap.hasOwnProperty(entry.key)) {
-            fieldset.computedEntriesMap[entry.key].push(entry);
+          if(fieldset.computedEntriesMap.has(entry.key)) {
+            fieldset.computedEntriesMap.get(entry.key).push(entry);
           } else {
-            fieldset.computedEntriesMap[entry.key] = [entry];
+            fieldset.computedEntriesMap.set(entry.key, [entry]);
           }
         }
 
         if(fieldset.hasOwnProperty('extend')) {
           const copiedEntries = this.entries(fieldset.extend).filter(entry =>
-            !fieldset.computedEntriesMap.hasOwnProperty(entry.key)
+            !fieldset.computedEntriesMap.has(entry.key)
           );
 
           fieldset.computedEntries = copiedEntries.concat(fieldset.computedEntries); // TODO: .push(...xy) somehow possible too? (but careful about order, which is relevant)
 
           for(const entry of copiedEntries) {
-            if(fieldset.computedEntriesMap.hasOwnProperty(entry.key)) {
-              fieldset.computedEntriesMap[entry.key].push(entry);
+            if(fieldset.computedEntriesMap.has(entry.key)) {
+              fieldset.computedEntriesMap.get(entry.key).push(entry);
             } else {
-              fieldset.computedEntriesMap[entry.key] = [entry];
+              fieldset.computedEntriesMap.set(entry.key, [entry]);
             }
           }
         }
diff --git a/javascript/lib/elements/fieldset.js b/javascript/lib/elements/fieldset.js
index 4637693..e68052b 100644
--- a/javascript/lib/elements/fieldset.js
+++ b/javascript/lib/elements/fieldset.js
@@ -19,7 +19,7 @@ class Fieldset extends ElementBase {
   _entries(map = false) {
     if(!this.hasOwnProperty('_instantiatedEntries')) {
       this._instantiatedEntries = [];
-      this._instantiatedEntriesMap = {};
+      this._instantiatedEntriesMap = new Map();
       this._instantiateEntries(this._instruction);
     }
 
@@ -34,7 +34,7 @@ class Fieldset extends ElementBase {
       entries = this._entries();
     } else {
       const entriesMap = this._entries(true);
-      entries = entriesMap.hasOwnProperty(key) ? entriesMap[key] : [];
+      entries = entriesMap.has(key) ? entriesMap.get(key) : [];
     }
 
     if(entries.length === 0) {
@@ -63,14 +63,14 @@ class Fieldset extends ElementBase {
       this._instantiateEntries(fieldset.mirror);
     } else if(fieldset.hasOwnProperty('entries')) {
       const nativeEntries = fieldset.entries.filter(entry =>
-        !this._instantiatedEntriesMap.hasOwnProperty(entry.key)
+        !this._instantiatedEntriesMap.has(entry.key)
       ).map(entry => {
         const instance = new fieldset_entry_module.FieldsetEntry(this._context, entry, this);
 
-        if(this._instantiatedEntriesMap.hasOwnProperty(entry.key)) {
-          this._instantiatedEntriesMap[entry.key].push(instance);
+        if(this._instantiatedEntriesMap.has(entry.key)) {
+          this._instantiatedEntriesMap.get(entry.key).push(instance);
         } else {
-          this._instantiatedEntriesMap[entry.key] = [instance];
+          this._instantiatedEntriesMap.set(entry.key, [instance]);
         }
 
         return instance;
@@ -122,7 +122,7 @@ class Fieldset extends ElementBase {
 
     const entriesMap = this._entries(true);
 
-    for(const [key, entries] of Object.entries(entriesMap)) {
+    for(const [key, entries] of entriesMap) {
       if(options.hasOwnProperty('except') && options.except.includes(key)) continue;
       if(options.hasOwnProperty('only') && !options.only.includes(key)) continue;
 
@@ -152,10 +152,10 @@ class Fieldset extends ElementBase {
     } else {
       const entriesMap = this._entries(true);
 
-      if(!entriesMap.hasOwnProperty(key))
+      if(!entriesMap.has(key))
         return [];
 
-      return entriesMap[key];
+      return entriesMap.get(key);
     }
   }
 
diff --git a/javascript/lib/elements/section.js b/javascript/lib/elements/section.js
index a7242ff..2bcc7ec 100644
--- a/javascript/lib/elements/section.js
+++ b/javascript/lib/elements/section.js
@@ -47,7 +47,7 @@ class Section extends ElementBase {
       elements = this._elements();
     } else {
       const elementsMap = this._elements(true);
-      elements = elementsMap.hasOwnProperty(key) ? elementsMap[key] : [];
+      elements = elementsMap.has(key) ? elementsMap.get(key) : [];
     }
 
     if(elements.length === 0) {
@@ -74,7 +74,7 @@ class Section extends ElementBase {
   _elements(map = false) {
     if(!this.hasOwnProperty('_instantiatedElements')) {
       this._instantiatedElements = [];
-      this._instantiatedElementsMap = {};
+      this._instantiatedElementsMap = new Map();
       this._instantiateElements(this._instruction);
     }
 
@@ -89,7 +89,7 @@ class Section extends ElementBase {
       elements = this._elements();
     } else {
       const elementsMap = this._elements(true);
-      elements = elementsMap.hasOwnProperty(key) ? elementsMap[key] : [];
+      elements = elementsMap.has(key) ? elementsMap.get(key) : [];
     }
 
     if(elements.length === 0) {
@@ -126,7 +126,7 @@ class Section extends ElementBase {
       elements = this._elements();
     } else {
       const elementsMap = this._elements(true);
-      elements = elementsMap.hasOwnProperty(key) ? elementsMap[key] : [];
+      elements = elementsMap.has(key) ? elementsMap.get(key) : [];
     }
 
     if(elements.length === 0) {
@@ -165,7 +165,7 @@ class Section extends ElementBase {
       elements = this._elements();
     } else {
       const elementsMap = this._elements(true);
-      elements = elementsMap.hasOwnProperty(key) ? elementsMap[key] : [];
+      elements = elementsMap.has(key) ? elementsMap.get(key) : [];
     }
 
     if(elements.length === 0) {
@@ -199,14 +199,14 @@ class Section extends ElementBase {
       this._instantiateElements(section.mirror);
     } else {
       const nativeElements = section.elements.filter(element =>
-        !this._instantiatedElementsMap.hasOwnProperty(element.key)
+        !this._instantiatedElementsMap.has(element.key)
       ).map(element => {
         const instance = new section_element_module.SectionElement(this._context, element, this);
 
-        if(this._instantiatedElementsMap.hasOwnProperty(element.key)) {
-          this._instantiatedElementsMap[element.key].push(instance);
+        if(this._instantiatedElementsMap.has(element.key)) {
+          this._instantiatedElementsMap.get(element.key).push(instance);
         } else {
-          this._instantiatedElementsMap[element.key] = [instance];
+          this._instantiatedElementsMap.set(element.key, [instance]);
         }
 
         return instance;
@@ -228,7 +228,7 @@ class Section extends ElementBase {
       elements = this._elements();
     } else {
       const elementsMap = this._elements(true);
-      elements = elementsMap.hasOwnProperty(key) ? elementsMap[key] : [];
+      elements = elementsMap.has(key) ? elementsMap.get(key) : [];
     }
 
     if(elements.length === 0) {
@@ -282,7 +282,7 @@ class Section extends ElementBase {
       elements = this._elements();
     } else {
       const elementsMap = this._elements(true);
-      elements = elementsMap.hasOwnProperty(key) ? elementsMap[key] : [];
+      elements = elementsMap.has(key) ? elementsMap.get(key) : [];
     }
 
     if(elements.length === 0) {
@@ -358,7 +358,7 @@ class Section extends ElementBase {
 
     const elementsMap = this._elements(true);
 
-    for(const [key, elements] of Object.entries(elementsMap)) {
+    for(const [key, elements] of elementsMap) {
       if(options.hasOwnProperty('except') && options.except.includes(key)) continue;
       if(options.hasOwnProperty('only') && !options.only.includes(key)) continue;
 
@@ -394,7 +394,7 @@ class Section extends ElementBase {
       return this._elements();
     } else {
       const elementsMap = this._elements(true);
-      return elementsMap.hasOwnProperty(key) ? elementsMap[key] : [];
+      return elementsMap.has(key) ? elementsMap.get(key) : [];
     }
   }
 
@@ -416,7 +416,7 @@ class Section extends ElementBase {
       elements = this._elements();
     } else {
       const elementsMap = this._elements(true);
-      elements = elementsMap.hasOwnProperty(key) ? elementsMap[key] : [];
+      elements = elementsMap.has(key) ? elementsMap.get(key) : [];
     }
 
     return elements.map(element => {
@@ -441,7 +441,7 @@ class Section extends ElementBase {
       elements = this._elements();
     } else {
       const elementsMap = this._elements(true);
-      elements = elementsMap.hasOwnProperty(key) ? elementsMap[key] : [];
+      elements = elementsMap.has(key) ? elementsMap.get(key) : [];
     }
 
     return elements.map(element => {
@@ -464,7 +464,7 @@ class Section extends ElementBase {
       elements = this._elements();
     } else {
       const elementsMap = this._elements(true);
-      elements = elementsMap.hasOwnProperty(key) ? elementsMap[key] : [];
+      elements = elementsMap.has(key) ? elementsMap.get(key) : [];
     }
 
     return elements.map(element => {
@@ -547,7 +547,7 @@ class Section extends ElementBase {
       elements = this._elements();
     } else {
       const elementsMap = this._elements(true);
-      elements = elementsMap.hasOwnProperty(key) ? elementsMap[key] : [];
+      elements = elementsMap.has(key) ? elementsMap.get(key) : [];
     }
 
     return elements.map(element => {
diff --git a/javascript/lib/resolve.js b/javascript/lib/resolve.js
index 386da57..1427c5d 100644
--- a/javascript/lib/resolve.js
+++ b/javascript/lib/resolve.js
@@ -60,31 +60,31 @@ const consolidateSections = (context, section, template, deepCopy) => {
 
     if(!deepCopy) return;
 
-    const mergeMap = {};
+    const mergeMap = new Map();
 
     for(const elementInstruction of section.elements) {
-      if(elementInstruction.type !== SECTION || mergeMap.hasOwnProperty(elementInstruction.key)) {
-        mergeMap[elementInstruction.key] = false; // non-mergable (no section or multiple sections with same key)
+      if(elementInstruction.type !== SECTION || mergeMap.has(elementInstruction.key)) {
+        mergeMap.set(elementInstruction.key, false); // non-mergable (no section or multiple sections with same key)
       } else {
-        mergeMap[elementInstruction.key] = { section: elementInstruction };
+        mergeMap.set(elementInstruction.key, { section: elementInstruction });
       }
     }
 
     for(const elementInstruction of elements(template)) {
-      if(mergeMap.hasOwnProperty(elementInstruction.key)) {
-        const merger = mergeMap[elementInstruction.key];
+      if(mergeMap.has(elementInstruction.key)) {
+        const merger = mergeMap.get(elementInstruction.key);
 
         if(merger === false) continue;
 
         if(elementInstruction.type !== SECTION || merger.hasOwnProperty('template')) {
-          mergeMap[elementInstruction.key] = false; // non-mergable (no section or multiple template sections with same key)
+          mergeMap.set(elementInstruction.key, false); // non-mergable (no section or multiple template sections with same key)
         } else {
           merger.template = elementInstruction;
         }
       }
     }
 
-    for(const merger of Object.values(mergeMap)) {
+    for(const merger of mergeMap.values()) {
       // No template if a section is applicable for merging but the template has no such section
       if(merger === false || !merger.hasOwnProperty('template')) continue;
 
@@ -173,9 +173,9 @@ const index = (context, section, indexNonSectionElements, indexSections) => {
       index(context, elementInstruction, indexNonSectionElements, indexSections);
 
       if(indexSections &&
-         context.copy.sections.hasOwnProperty(elementInstruction.key) &&
+         context.copy.sections.has(elementInstruction.key) &&
          elementInstruction.key !== elementInstruction.template) {
-        const copyData = context.copy.sections[elementInstruction.key];
+        const copyData = context.copy.sections.get(elementInstruction.key);
 
         if(copyData.hasOwnProperty('template'))
           throw errors.twoOrMoreTemplatesFound(context, copyData.targets[0], copyData.template, elementInstruction);
@@ -183,9 +183,9 @@ const index = (context, section, indexNonSectionElements, indexSections) => {
         copyData.template = elementInstruction;
       }
     } else if(indexNonSectionElements &&
-              context.copy.nonSectionElements.hasOwnProperty(elementInstruction.key) &&
+              context.copy.nonSectionElements.has(elementInstruction.key) &&
               elementInstruction.key !== elementInstruction.template) {
-      const copyData = context.copy.nonSectionElements[elementInstruction.key];
+      const copyData = context.copy.nonSectionElements.get(elementInstruction.key);
 
       if(copyData.hasOwnProperty('template'))
         throw errors.twoOrMoreTemplatesFound(context, copyData.targets[0], copyData.template, elementInstruction);
@@ -196,8 +196,8 @@ const index = (context, section, indexNonSectionElements, indexSections) => {
 }
 
 exports.resolve = function() {
-  const unresolvedNonSectionElements = Object.values(this.copy.nonSectionElements);
-  const unresolvedSections = Object.values(this.copy.sections);
+  const unresolvedNonSectionElements = [...this.copy.nonSectionElements.values()];
+  const unresolvedSections = [...this.copy.sections.values()];
 
   if(unresolvedNonSectionElements.length > 0 || unresolvedSections.length > 0) {
     index(this, this._document, unresolvedNonSectionElements.length > 0, unresolvedSections.length > 0);
-- 
2.43.0


From 33f0034f99d21498034cd15e3459584d98f3e30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:18 +0000
Subject: [PATCH 54/55] fix: (js) reports of unterminated multiline fields do
 not show lines far above

---
 javascript/lib/analyze.js | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/javascript/lib/analyze.js b/javascript/lib/analyze.js
index 180174f..533b2f0 100644
--- a/javascript/lib/analyze.js
+++ b/javascript/lib/analyze.js
@@ -479,6 +479,8 @@ exports.analyze = function() {
               });
             }
 
+            this._lineCount = index <= this._input.length ? line + 1 : line;
+
             throw errors.unterminatedMultilineField(this, instruction);
           } else {
             lastNonSectionElement.lines.push({
-- 
2.43.0


From 7fa2a71452cd9fa73ab69d6b36058868815040b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:54 +0000
Subject: [PATCH 55/55] fix: (js) unterminated escaped keys are reported as
 such in lines that end with a carriage return

---
 javascript/lib/errors/parsing.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/javascript/lib/errors/parsing.js b/javascript/lib/errors/parsing.js
index 6fe5388..d42050f 100644
--- a/javascript/lib/errors/parsing.js
+++ b/javascript/lib/errors/parsing.js
@@ -3,7 +3,7 @@ const { cursor, selectLine, selectTemplate } = require('./selections.js');
 const { ParseError } = require('../error_types.js');
 
 // ```key: value
-const UNTERMINATED_ESCAPED_KEY = /^\s*#*\s*(`+)(?!`)((?:(?!\1).)+)$/;
+const UNTERMINATED_ESCAPED_KEY = /^\s*#*\s*(`+)(?!`)((?:(?!\1)[^\n])+)$/;
 const unterminatedEscapedKey = (context, instruction, unterminated) => {
   const line = context._input.substring(instruction.ranges.line[BEGIN], instruction.ranges.line[END]);
   const selectionColumn = line.lastIndexOf(unterminated);
-- 
2.43.0

