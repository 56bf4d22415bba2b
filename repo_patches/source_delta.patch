From f5bd432723998f7ea5896d4e9620edfa1e2b4d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:16 +0000
Subject: [PATCH 001/106] fix: represent non-BMP characters as surrogate pairs
 in ASCII .properties files

---
 python/moz/l10n/formats/properties/parse.py     | 11 +++++++++--
 python/moz/l10n/formats/properties/serialize.py |  7 ++++++-
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/python/moz/l10n/formats/properties/parse.py b/python/moz/l10n/formats/properties/parse.py
index 10f5881..ccb9045 100644
--- a/python/moz/l10n/formats/properties/parse.py
+++ b/python/moz/l10n/formats/properties/parse.py
@@ -30,12 +30,19 @@ class LineKind(Enum):
     VALUE = 3
 
 
-esc_re = compile("\\\\(u[0-9A-Fa-f]{1,4}|.)")
+esc_re = compile(
+    "\\\\(u[Dd][89ABab][0-9A-Fa-f]{2}\\\\u[Dd][C-Fc-f][0-9A-Fa-f]{2}|u[0-9A-Fa-f]{1,4}|.)"
+)
 
 
 def esc_parse(match: Match[str]) -> str:
     esc = match.group(1)
-    if len(esc) > 1 and esc[0] == "u":
+    if len(esc) == 11:
+        # A surrogate pair, representing a non-BMP character
+        high = int(esc[1:5], 16)
+        low = int(esc[7:], 16)
+        return chr(0x10000 + ((high - 0xD800) << 10) + (low - 0xDC00))
+    elif len(esc) > 1 and esc[0] == "u":
         n = int(esc[1:], 16)
         return chr(n)
     elif esc == "t":
diff --git a/python/moz/l10n/formats/properties/serialize.py b/python/moz/l10n/formats/properties/serialize.py
index 83a2075..8ab4abf 100644
--- a/python/moz/l10n/formats/properties/serialize.py
+++ b/python/moz/l10n/formats/properties/serialize.py
@@ -37,7 +37,12 @@ def encode_char(m: Match[str]) -> str:
         return r"\f"
     elif ch == "\r":
         return r"\r"
-    return f"\\u{ord(ch):04x}"
+    code = ord(ch)
+    if code > 0xFFFF:
+        # Non-BMP characters are represented by a surrogate pair
+        code -= 0x10000
+        return f"\\u{0xD800 + (code >> 10):04x}\\u{0xDC00 + (code & 0x3FF):04x}"
+    return f"\\u{code:04x}"
 
 
 def escape_chars(value: str, ensure_ascii: bool) -> str:
-- 
2.43.0


From 74f40e9d8f43ea62aa4773e9102411dd836d8680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:16 +0000
Subject: [PATCH 002/106] fix: escape comment markers at the start of
 .properties keys

---
 python/moz/l10n/formats/properties/serialize.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/moz/l10n/formats/properties/serialize.py b/python/moz/l10n/formats/properties/serialize.py
index 8ab4abf..34bb89d 100644
--- a/python/moz/l10n/formats/properties/serialize.py
+++ b/python/moz/l10n/formats/properties/serialize.py
@@ -114,6 +114,9 @@ def properties_serialize(
                 key = id_prefix + ".".join(entry.id)
                 key = escape_chars(key, ensure_ascii)
                 key = key.translate(special_key_trans)
+                if key.startswith(("#", "!")):
+                    # Would otherwise be parsed as a comment
+                    key = "\\" + key
 
                 value: str
                 msg = entry.value
-- 
2.43.0


From 74a165f003d53ffda3f92988fb24ad41195cb05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:16 +0000
Subject: [PATCH 003/106] fix: do not let a carriage return end a .properties
 comment

---
 python/moz/l10n/formats/properties/serialize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/properties/serialize.py b/python/moz/l10n/formats/properties/serialize.py
index 34bb89d..9671b14 100644
--- a/python/moz/l10n/formats/properties/serialize.py
+++ b/python/moz/l10n/formats/properties/serialize.py
@@ -22,6 +22,7 @@ from ...model import Entry, Message, PatternMessage, Resource
 
 control_chars = compile(r"[\x00-\x19\x5C\x7F-\x9F]")
 not_ascii_printable_chars = compile(r"[^\x20-\x5B\x5D-\x7E]")
+line_break = compile(r"\r\n|\r|\n")
 special_key_trans = str.maketrans({" ": "\\ ", ":": "\\:", "=": "\\="})
 
 
@@ -94,7 +95,7 @@ def properties_serialize(
         if comment:
             if standalone and not at_empty_line:
                 yield "\n"
-            for line in comment.strip("\n").split("\n"):
+            for line in line_break.split(comment.strip("\n")):
                 if not line or line.isspace():
                     yield "#\n"
                 else:
-- 
2.43.0


From f106341e778fc64b3dd62c227acfe85a6368cb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:16 +0000
Subject: [PATCH 004/106] fix: process escapes in .properties messages with
 printf placeholders

---
 python/moz/l10n/formats/properties/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/properties/parse.py b/python/moz/l10n/formats/properties/parse.py
index ccb9045..e4e7c7a 100644
--- a/python/moz/l10n/formats/properties/parse.py
+++ b/python/moz/l10n/formats/properties/parse.py
@@ -158,7 +158,7 @@ def properties_parse_message(
     if kind != LineKind.VALUE or not all(kind == LineKind.EMPTY for kind, _, _ in rest):
         raise ValueError("Source is not a .properties value")
     if printf_placeholders:
-        return PatternMessage(list(parse_printf_pattern(source)))
+        return PatternMessage(list(parse_printf_pattern(value)))
     return PatternMessage([value])
 
 
-- 
2.43.0


From 0406d56076db9dca856627ef04be85ce383c95cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:12 +0000
Subject: [PATCH 005/106] fix: trim trailing whitespace of .properties
 comments, as documented

---
 python/moz/l10n/formats/properties/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/properties/parse.py b/python/moz/l10n/formats/properties/parse.py
index e4e7c7a..1c2f01b 100644
--- a/python/moz/l10n/formats/properties/parse.py
+++ b/python/moz/l10n/formats/properties/parse.py
@@ -239,7 +239,7 @@ class PropertiesParser:
                     break
             end = self.pos = start + idx + 1
             self.nl()
-            return LineKind.COMMENT, lp, self.source[start:end]
+            return LineKind.COMMENT, lp, self.source[start:end].rstrip()
 
         # key
         start = self.pos
-- 
2.43.0


From d030b52cce75682b63e6eca9384794c26550be16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:47 +0000
Subject: [PATCH 006/106] fix: keep empty literal operands in MessageFormat 2
 syntax

---
 python/moz/l10n/formats/mf2/message_parser.py | 2 +-
 python/moz/l10n/formats/mf2/serialize.py      | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/moz/l10n/formats/mf2/message_parser.py b/python/moz/l10n/formats/mf2/message_parser.py
index 95b5735..4e08db1 100644
--- a/python/moz/l10n/formats/mf2/message_parser.py
+++ b/python/moz/l10n/formats/mf2/message_parser.py
@@ -264,7 +264,7 @@ class MF2Parser:
             arg_end = self.pos
             ch = self.skip_opt_space()
         if ch == ":":
-            if arg and self.pos == arg_end:
+            if arg is not None and self.pos == arg_end:
                 raise MF2ParseError(self, "Expected space")
             function = self.identifier(1)
             options = self.options()
diff --git a/python/moz/l10n/formats/mf2/serialize.py b/python/moz/l10n/formats/mf2/serialize.py
index 1c90c29..595b365 100644
--- a/python/moz/l10n/formats/mf2/serialize.py
+++ b/python/moz/l10n/formats/mf2/serialize.py
@@ -103,10 +103,10 @@ def _quoted_pattern(pattern: Pattern) -> Iterator[str]:
 
 def _expression(expr: Expression) -> Iterator[str]:
     yield "{"
-    if expr.arg:
+    if expr.arg is not None:
         yield _value(expr.arg)
     if expr.function:
-        yield f" :{expr.function}" if expr.arg else f":{expr.function}"
+        yield f":{expr.function}" if expr.arg is None else f" :{expr.function}"
     yield from _options(expr.options)
     yield from _attributes(expr.attributes)
     yield "}"
-- 
2.43.0


From 952c42671f5eb6ac32018da9620209372acfdae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:52 +0000
Subject: [PATCH 007/106] fix: quote MessageFormat 2 patterns that would start
 a complex message

---
 python/moz/l10n/formats/mf2/serialize.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/python/moz/l10n/formats/mf2/serialize.py b/python/moz/l10n/formats/mf2/serialize.py
index 595b365..b76b69a 100644
--- a/python/moz/l10n/formats/mf2/serialize.py
+++ b/python/moz/l10n/formats/mf2/serialize.py
@@ -30,7 +30,9 @@ from ...model import (
 )
 from .validate import name_re, number_re
 
-complex_start_re = compile(r"[\t\n\r \u3000]*\.")
+complex_start_re = compile(
+    r"[\t\n\r \u3000\u061c\u200e\u200f\u2066-\u2069]*\."
+)
 literal_esc_re = compile(r"[\\|]")
 text_esc_re = compile(r"[\\{}]")
 
@@ -42,17 +44,11 @@ def mf2_serialize_message(message: Message) -> str:
     Does not validate the message before serialization;
     for that, use `mf2_validate_message()`.
     """
-    if (
-        isinstance(message, PatternMessage)
-        and not message.declarations
-        and (
-            not message.pattern
-            or not isinstance(part0 := message.pattern[0], str)
-            or not complex_start_re.match(part0)
-        )
-    ):
-        # simple message
-        return "".join(mf2_serialize_pattern(message.pattern))
+    if isinstance(message, PatternMessage) and not message.declarations:
+        # simple message, unless it would look like a complex one
+        simple = "".join(mf2_serialize_pattern(message.pattern))
+        if not complex_start_re.match(simple):
+            return simple
 
     res = ""
     for name, expr in message.declarations.items():
-- 
2.43.0


From 352a11d9f37b03e52539470f394c82c34a6a8650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:57 +0000
Subject: [PATCH 008/106] fix: match only number literals with MessageFormat 2
 number_re

---
 python/moz/l10n/formats/mf2/validate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/mf2/validate.py b/python/moz/l10n/formats/mf2/validate.py
index d379ace..d875512 100644
--- a/python/moz/l10n/formats/mf2/validate.py
+++ b/python/moz/l10n/formats/mf2/validate.py
@@ -32,7 +32,7 @@ from ...model import (
 _name_start = r"a-zA-Z_\xC0-\xD6\xD8-\xF6\xF8-\u02FF\u0370-\u037D\u037F-\u061B\u061D-\u1FFF\u200C-\u200D\u2070-\u218F\u2C00-\u2FEF\u3001-\uD7FF\uF900-\uFDCF\uFDF0-\uFFFC\U00010000-\U000EFFFF"
 name_re = compile(f"[{_name_start}][{_name_start}0-9-.\xb7\u0300-\u036f\u203f-\u2040]*")
 identifier_re = compile(f"{name_re.pattern}(?::{name_re.pattern})?")
-number_re = compile(r"-?(?:0|(?:[1-9]\d*))(?:.\d+)?(?:[eE][-+]?\d+)?")
+number_re = compile(r"-?(?:0|(?:[1-9][0-9]*))(?:\.[0-9]+)?(?:[eE][-+]?[0-9]+)?")
 
 
 class MF2ValidationError(ValueError):
-- 
2.43.0


From 38325b4ed8e64e62605478ec0d1c83c83068ca4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:03 +0000
Subject: [PATCH 009/106] fix: order MessageFormat 2 declarations by their
 dependencies

---
 python/moz/l10n/formats/mf2/validate.py | 31 +++++++++++--------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/python/moz/l10n/formats/mf2/validate.py b/python/moz/l10n/formats/mf2/validate.py
index d875512..dc6838c 100644
--- a/python/moz/l10n/formats/mf2/validate.py
+++ b/python/moz/l10n/formats/mf2/validate.py
@@ -15,7 +15,6 @@
 from __future__ import annotations
 
 from collections.abc import Iterable, Mapping
-from functools import cmp_to_key
 from re import compile
 from typing import Literal
 
@@ -95,7 +94,7 @@ def mf2_validate_message(msg: PatternMessage | SelectMessage) -> None:
 
 
 def _validate_declarations(declarations: dict[str, Expression]) -> None:
-    decl_data: list[tuple[str, bool]] = []
+    decl_data: list[tuple[bool, str]] = []
     dependencies: dict[str, set[str]] = {}
 
     def deep_dependencies(name: str, res: set[str]) -> set[str]:
@@ -106,17 +105,6 @@ def _validate_declarations(declarations: dict[str, Expression]) -> None:
                     deep_dependencies(dep, res)
         return res
 
-    def cmp_decl_data(a: tuple[str, bool], b: tuple[str, bool]) -> int:
-        a_name, a_input = a
-        b_name, b_input = b
-        if a_name in dependencies[b_name]:
-            return -1
-        if b_name in dependencies[a_name]:
-            return 1
-        if a_input != b_input:
-            return -1 if a_input else 1
-        return -1 if a_name < b_name else 1
-
     if not isinstance(declarations, Mapping):
         raise MF2ValidationError(f"Invalid declarations: {declarations}")
     for name, expr in declarations.items():
@@ -127,7 +115,7 @@ def _validate_declarations(declarations: dict[str, Expression]) -> None:
         _validate_expression(expr)
         var_name = expr.arg.name if isinstance(expr.arg, VariableRef) else None
         is_input = var_name == name
-        decl_data.append((name, is_input))
+        decl_data.append((not is_input, name))
         deps: set[str] = set()
         if var_name is not None and not is_input:
             deps.add(var_name)
@@ -143,10 +131,17 @@ def _validate_declarations(declarations: dict[str, Expression]) -> None:
         dependencies[name] = deps
 
     if len(declarations) > 1:
-        decl_data.sort(key=cmp_to_key(cmp_decl_data))
-        inserts = [(name, declarations.pop(name)) for name, _ in decl_data[1:]]
-        for name, expr in inserts:
-            declarations[name] = expr
+        # Always pick the first declaration with no remaining dependencies,
+        # with .input before .local and then ordered by name.
+        decl_data.sort()
+        while decl_data:
+            pending = {name for _, name in decl_data}
+            next = min(
+                data for data in decl_data if pending.isdisjoint(dependencies[data[1]])
+            )
+            decl_data.remove(next)
+            name = next[1]
+            declarations[name] = declarations.pop(name)
 
 
 def _validate_pattern(pattern: Pattern) -> None:
-- 
2.43.0


From 2fd5e747de77856bcdf75b36cdc6c7fc8d685c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:09 +0000
Subject: [PATCH 010/106] fix: reject an unterminated escape at the end of an
 MF2 pattern

---
 python/moz/l10n/formats/mf2/message_parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/moz/l10n/formats/mf2/message_parser.py b/python/moz/l10n/formats/mf2/message_parser.py
index 4e08db1..9d04b69 100644
--- a/python/moz/l10n/formats/mf2/message_parser.py
+++ b/python/moz/l10n/formats/mf2/message_parser.py
@@ -242,6 +242,8 @@ class MF2Parser:
             else:
                 text += ch
             self.pos += 1
+        if at_esc:
+            raise MF2ParseError(self, "Expected an escaped character")
         return text
 
     def expression_or_markup(self) -> Expression | Markup:
-- 
2.43.0


From 1f52de6b73d2956c83c6248a6b154617373353ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:39 +0000
Subject: [PATCH 011/106] fix: escape backslashes in JSON entry identifiers

---
 python/moz/l10n/message/from_json.py | 7 ++++---
 python/moz/l10n/message/to_json.py   | 3 ++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/python/moz/l10n/message/from_json.py b/python/moz/l10n/message/from_json.py
index a19bb63..6302164 100644
--- a/python/moz/l10n/message/from_json.py
+++ b/python/moz/l10n/message/from_json.py
@@ -15,7 +15,7 @@
 from __future__ import annotations
 
 from collections.abc import Mapping
-from re import split
+from re import findall, sub
 from typing import Any, Literal
 
 from ..model import (
@@ -39,8 +39,9 @@ def entry_from_json(key: str, json: dict[str, Any]) -> Entry[Message]:
 
     May raise `MF2ValidationError`.
     """
-    if r"\." in key:
-        id = tuple(str(part).replace(r"\.", ".") for part in split(r"(?<!\\)\.", key))
+    if "\\" in key:
+        parts = findall(r"(?:^|\.)((?:[^.\\]|\\[.\\]?)*)", key)
+        id = tuple(sub(r"\\([.\\])", r"\1", part) for part in parts)
     else:
         id = tuple(key.split("."))
     meta = [Metadata(key, value) for key, value in json["@"]] if "@" in json else []
diff --git a/python/moz/l10n/message/to_json.py b/python/moz/l10n/message/to_json.py
index 257de8a..edd3bb2 100644
--- a/python/moz/l10n/message/to_json.py
+++ b/python/moz/l10n/message/to_json.py
@@ -14,6 +14,7 @@
 
 from __future__ import annotations
 
+from re import sub
 from typing import Any
 
 from ..model import (
@@ -35,7 +36,7 @@ def entry_to_json(entry: Entry[Message]) -> tuple[str, dict[str, Any]]:
     Returns the stringified entry id and a JSON object.
     The JSON Schema of the output is provided as [entry.json](../../../../schemas/entry.json).
     """
-    id = ".".join(part.replace(".", r"\.") for part in entry.id)
+    id = ".".join(sub(r"[.\\]", r"\\\g<0>", part) for part in entry.id)
     json: dict[str, Any] = {}
     if entry.meta:
         json["@"] = list([m.key, m.value] for m in entry.meta)
-- 
2.43.0


From 0be462ad138aabd2fab61a41ee53b5e1ab1ab06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:44 +0000
Subject: [PATCH 012/106] fix: keep declarations of an otherwise empty entry
 value in JSON

---
 python/moz/l10n/message/to_json.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/moz/l10n/message/to_json.py b/python/moz/l10n/message/to_json.py
index edd3bb2..97caf05 100644
--- a/python/moz/l10n/message/to_json.py
+++ b/python/moz/l10n/message/to_json.py
@@ -46,6 +46,7 @@ def entry_to_json(entry: Entry[Message]) -> tuple[str, dict[str, Any]]:
         not entry.properties
         or not isinstance(entry.value, PatternMessage)
         or entry.value.pattern
+        or entry.value.declarations
     ):
         json["="] = message_to_json(entry.value)
     if entry.properties:
-- 
2.43.0


From dc81cf868ba535ab4f00c6b3e552c46ada23c079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:49 +0000
Subject: [PATCH 013/106] fix: read attribute-only expressions from message
 JSON

---
 python/moz/l10n/message/from_json.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/message/from_json.py b/python/moz/l10n/message/from_json.py
index 6302164..023ece9 100644
--- a/python/moz/l10n/message/from_json.py
+++ b/python/moz/l10n/message/from_json.py
@@ -95,9 +95,9 @@ def _pattern(json: list[str | dict[str, Any]]) -> Pattern:
     return [
         part
         if isinstance(part, str)
-        else _expression(part)
-        if "_" in part or "$" in part or "fn" in part
         else _markup(part)
+        if "open" in part or "close" in part or "elem" in part
+        else _expression(part)
         for part in json
     ]
 
-- 
2.43.0


From c9681292563e2854f27a94985fa129ee8748848c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:33 +0000
Subject: [PATCH 014/106] fix: report wrongly typed MessageFormat 2 JSON as
 MF2ValidationError

---
 python/moz/l10n/formats/mf2/from_json.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/mf2/from_json.py b/python/moz/l10n/formats/mf2/from_json.py
index 654484b..38f1a86 100644
--- a/python/moz/l10n/formats/mf2/from_json.py
+++ b/python/moz/l10n/formats/mf2/from_json.py
@@ -69,7 +69,7 @@ def mf2_from_json(json: dict[str, Any]) -> Message:
             for vari in json["variants"]
         }
         return SelectMessage(declarations, selectors, variants)
-    except (IndexError, KeyError, TypeError) as err:
+    except (AttributeError, IndexError, KeyError, TypeError) as err:
         raise MF2ValidationError(f"Invalid JSON: {err!r}")
 
 
-- 
2.43.0


From 830c996ad4146b7e333729b85f806eb6cbef39d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:13 +0000
Subject: [PATCH 015/106] fix: reject malformed BCP-47 Android locale
 qualifiers

---
 python/moz/l10n/paths/android_locale.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/moz/l10n/paths/android_locale.py b/python/moz/l10n/paths/android_locale.py
index dcf8ebf..10671d7 100644
--- a/python/moz/l10n/paths/android_locale.py
+++ b/python/moz/l10n/paths/android_locale.py
@@ -48,6 +48,8 @@ def parse_android_locale(alocale: str) -> str | None:
         `iw` -> `he`, `en-rGB` -> `en-GB`, `b+sr+Latn` -> `sr-Latn`
     """
     if alocale.startswith("b+"):
+        if not fullmatch(r"b\+[A-Za-z]{2,8}(?:\+[A-Za-z0-9]{1,8})*", alocale):
+            return None  # Not a valid BCP-47 qualifier
         lc, *rest = alocale[2:].split("+")
     else:
         m = fullmatch(r"([a-z]{2,3})(?:-r([A-Z]{2}))?", alocale)
-- 
2.43.0


From 47d30b1c2b0db03c8d0703c13413b59a44482da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:09 +0000
Subject: [PATCH 016/106] fix: make l10n_equal independent of the order of
 sections with equal ids

---
 python/moz/l10n/resource/l10n_equal.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/resource/l10n_equal.py b/python/moz/l10n/resource/l10n_equal.py
index 0a57878..3b9401b 100644
--- a/python/moz/l10n/resource/l10n_equal.py
+++ b/python/moz/l10n/resource/l10n_equal.py
@@ -42,7 +42,7 @@ def l10n_sections(resource: Resource[Any]) -> list[tuple[Any, ...]]:
         for section in resource.sections
         if any(isinstance(entry, Entry) for entry in section.entries)
     ]
-    ls.sort(key=lambda s: s[0])
+    ls.sort(key=l10n_section_key)
     nonempty_idx = next(
         (idx for idx, (id, comment, meta, _) in enumerate(ls) if id or comment or meta),
         len(ls),
@@ -57,6 +57,12 @@ def l10n_sections(resource: Resource[Any]) -> list[tuple[Any, ...]]:
     return ls
 
 
+def l10n_section_key(section: tuple[Any, ...]) -> tuple[Any, ...]:
+    id, comment, meta, entries = section
+    meta_items = sorted((key, sorted(values)) for key, values in meta.items())
+    return (id, comment, meta_items, [entry[0] for entry in entries])
+
+
 def l10n_entries(section: Section[Any]) -> list[tuple[Any, ...]]:
     le = [
         (
-- 
2.43.0


From 4283b7a9f92920497d2feacdcd3c0ab1fb2a214a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:00 +0000
Subject: [PATCH 017/106] fix: refuse conflicting identifiers in plain JSON

---
 .../moz/l10n/formats/plain_json/serialize.py  | 21 ++++++++++---------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/python/moz/l10n/formats/plain_json/serialize.py b/python/moz/l10n/formats/plain_json/serialize.py
index b72680f..6e9ffeb 100644
--- a/python/moz/l10n/formats/plain_json/serialize.py
+++ b/python/moz/l10n/formats/plain_json/serialize.py
@@ -14,7 +14,6 @@
 
 from __future__ import annotations
 
-from collections import defaultdict
 from collections.abc import Iterator
 from json import dumps
 from typing import Any
@@ -42,16 +41,18 @@ def plain_json_serialize(
         if meta:
             raise ValueError("Metadata is not supported")
 
-    def ddict() -> dict[str, Any]:
-        return defaultdict(ddict)
+    def descend(parent: dict[str, Any], id: tuple[str, ...]) -> dict[str, Any]:
+        for part in id:
+            parent = parent.setdefault(part, {})
+            if not isinstance(parent, dict):
+                raise ValueError(f"Identifier conflicts with a message value: {id}")
+        return parent
 
     check(resource.comment, resource.meta)
-    root = ddict()
+    root: dict[str, Any] = {}
     for section in resource.sections:
         check(section.comment, section.meta)
-        section_parent = root
-        for part in section.id:
-            section_parent = section_parent[part]
+        section_parent = descend(root, section.id)
         for entry in section.entries:
             if isinstance(entry, Entry):
                 check(entry.comment, entry.meta)
@@ -68,9 +69,9 @@ def plain_json_serialize(
                     raise ValueError(
                         f"Unsupported message for {section.id + entry.id}: {msg}"
                     )
-                parent = section_parent
-                for part in entry.id[:-1]:
-                    parent = parent[part]
+                parent = descend(section_parent, entry.id[:-1])
+                if entry.id[-1] in parent:
+                    raise ValueError(f"Duplicate identifier: {section.id + entry.id}")
                 parent[entry.id[-1]] = value
             else:
                 check(entry.comment, None)
-- 
2.43.0


From d8a889adbd02a8496fd1c05809c6aa3596d9fea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:12 +0000
Subject: [PATCH 018/106] fix: keep webext placeholder names apart and the
 caller's placeholders unmodified

---
 python/moz/l10n/formats/webext/parse.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/python/moz/l10n/formats/webext/parse.py b/python/moz/l10n/formats/webext/parse.py
index 39ffc8b..c261948 100644
--- a/python/moz/l10n/formats/webext/parse.py
+++ b/python/moz/l10n/formats/webext/parse.py
@@ -14,7 +14,7 @@
 
 from __future__ import annotations
 
-from re import compile
+from re import compile, fullmatch
 from typing import Any
 
 from ...model import (
@@ -72,6 +72,7 @@ def webext_parse_message(
     )
     pattern: Pattern = []
     declarations: dict[str, Expression] = {}
+    ph_names: dict[str, str] = {}
     pos = 0
     for m in placeholder.finditer(source):
         text = source[pos : m.start()]
@@ -86,8 +87,8 @@ def webext_parse_message(
             ph = ph_data.get(ph_key, None)
             if ph is None:
                 raise ValueError(f"Missing placeholders entry for {ph_key}")
-            elif "_name" in ph:
-                ph_name = ph["_name"]
+            elif ph_key in ph_names:
+                ph_name = ph_names[ph_key]
             else:
                 decl_src = ph["content"]
                 decl_arg_match = pos_arg.fullmatch(decl_src)
@@ -104,8 +105,14 @@ def webext_parse_message(
                 ph_name = m[1].replace("@", "_")
                 if ph_name[0].isdigit():
                     ph_name = f"_{ph_name}"
+                while ph_name in declarations or (
+                    # Do not mistake a named placeholder for a positional argument
+                    fullmatch(r"arg[1-9]", ph_name)
+                    and decl_value.arg != VariableRef(ph_name)
+                ):
+                    ph_name = f"_{ph_name}"
                 declarations[ph_name] = decl_value
-                ph["_name"] = ph_name
+                ph_names[ph_key] = ph_name
             exp = Expression(VariableRef(ph_name), attributes={"source": m[0]})
             pattern.append(exp)
         elif m[2]:
-- 
2.43.0


From c26dc352888a965f7acc4f5b15556677ccd90167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:12 +0000
Subject: [PATCH 019/106] fix: refuse webext messages with ambiguous
 placeholders

---
 python/moz/l10n/formats/webext/serialize.py | 47 ++++++++++++++++++---
 1 file changed, 40 insertions(+), 7 deletions(-)

diff --git a/python/moz/l10n/formats/webext/serialize.py b/python/moz/l10n/formats/webext/serialize.py
index 53fb6a0..f0d37fa 100644
--- a/python/moz/l10n/formats/webext/serialize.py
+++ b/python/moz/l10n/formats/webext/serialize.py
@@ -16,17 +16,19 @@ from __future__ import annotations
 
 from collections.abc import Iterator
 from json import dumps
-from re import sub
+from re import findall, fullmatch, sub
 from typing import Any
 
 from ...model import (
     Entry,
     Expression,
     Message,
+    Pattern,
     PatternMessage,
     Resource,
     VariableRef,
 )
+from .parse import placeholder
 
 
 def webext_serialize(
@@ -102,9 +104,19 @@ def webext_serialize_message(
         raise ValueError(f"Unsupported message: {msg}")
     msgstr = ""
     placeholders: dict[str, Any] = {}
+    pattern: Pattern = []
     for part in msg.pattern:
+        if isinstance(part, str) and pattern and isinstance(pattern[-1], str):
+            pattern[-1] += part
+        else:
+            pattern.append(part)
+    ph_keys: dict[str, str] = {}  # lower-cased placeholder name -> variable name
+    tokens: list[tuple[str, bool]] = []  # source, is literal
+    for part in pattern:
         if isinstance(part, str):
-            msgstr += sub(r"\$+", r"$\g<0>", part)
+            text = sub(r"\$+", r"$\g<0>", part)
+            tokens += ((esc, True) for esc in findall(r"\$+", text))
+            msgstr += text
         elif (
             isinstance(part, Expression)
             and isinstance(part.arg, VariableRef)
@@ -113,13 +125,21 @@ def webext_serialize_message(
             ph_name = part.arg.name
             source = part.attributes.get("source", None)
             local = msg.declarations.get(ph_name, None)
-            if local:
+            arg_match = fullmatch(r"arg([1-9])", ph_name)
+            if local and not (
+                arg_match
+                and local.arg == part.arg
+                and source == f"${arg_match[1]}"
+            ):
                 local_source = local.attributes.get("source", None)
                 if isinstance(local_source, str):
                     content = local_source
                 elif isinstance(local.arg, VariableRef):
                     content = local.arg.name
-                    if not content.startswith("$"):
+                    content_match = fullmatch(r"arg([1-9])", content)
+                    if content_match:
+                        content = f"${content_match[1]}"
+                    elif not content.startswith("$"):
                         content = f"${content}"
                 elif isinstance(local.arg, str):
                     content = local.arg
@@ -136,6 +156,11 @@ def webext_serialize_message(
                     ph_name = source[1:-1]
                 else:
                     source = None
+                prev_name = ph_keys.setdefault(ph_name.lower(), part.arg.name)
+                if prev_name != part.arg.name:
+                    raise ValueError(
+                        f"Placeholder name used for {prev_name} and {part.arg.name}: {ph_name}"
+                    )
                 if not any(key.lower() == ph_name.lower() for key in placeholders):
                     placeholders[ph_name] = {"content": content}
                     example = (
@@ -147,10 +172,18 @@ def webext_serialize_message(
                         raise ValueError(
                             f"Unsupported placeholder example for {ph_name}: {example}"
                         )
-                msgstr += source or f"${ph_name}$"
+                ph_source = source or f"${ph_name}$"
+            elif isinstance(source, str):
+                ph_source = source if source.startswith("$") else f"${source}"
+            elif arg_match:
+                ph_source = f"${arg_match[1]}"
             else:
-                arg_name = source if isinstance(source, str) else ph_name
-                msgstr += arg_name if arg_name.startswith("$") else f"${arg_name}"
+                ph_source = ph_name if ph_name.startswith("$") else f"${ph_name}"
+            tokens.append((ph_source, False))
+            msgstr += ph_source
         else:
             raise ValueError(f"Unsupported message part: {part}")
+    # Literal dollar signs may be parsed as a part of a placeholder next to them.
+    if [(m[0], bool(m[3])) for m in placeholder.finditer(msgstr)] != tokens:
+        raise ValueError(f"Unsupported message contents: {msgstr}")
     return msgstr, dict(sorted(placeholders.items()))
-- 
2.43.0


From 79b273a6c38a2dee38d10ee20a394151ed433364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:18 +0000
Subject: [PATCH 020/106] fix: read and write DTD files without losing
 comments, includes or parts of values

---
 python/moz/l10n/formats/dtd/parse.py     | 36 ++++++++++++++++++------
 python/moz/l10n/formats/dtd/serialize.py | 12 ++++----
 2 files changed, 34 insertions(+), 14 deletions(-)

diff --git a/python/moz/l10n/formats/dtd/parse.py b/python/moz/l10n/formats/dtd/parse.py
index fb6aae3..98ed37c 100644
--- a/python/moz/l10n/formats/dtd/parse.py
+++ b/python/moz/l10n/formats/dtd/parse.py
@@ -52,6 +52,15 @@ re_system_include = compile(
 
 re_comment = compile(r"\<!\s*--(.*?)--\s*\>", MULTILINE | DOTALL)
 
+# A comment, or an entity declaration with a value that might look like it has one
+re_token = compile(
+    re_comment.pattern
+    + r"|<!ENTITY\s+(?:%\s+)?"
+    + name
+    + r"\s+(?:SYSTEM\s+)?(?:\"[^\"]*\"|'[^']*')\s*>",
+    MULTILINE | DOTALL | UNICODE,
+)
+
 
 def dtd_parse(source: str | bytes) -> Resource[Message]:
     """
@@ -67,17 +76,28 @@ def dtd_parse(source: str | bytes) -> Resource[Message]:
     resource = Resource(Format.dtd, [Section((), entries)])
 
     def handle_other_content(entry: str) -> None:
-        if sm := re_system_include.fullmatch(entry):
+        pos = 0
+        while sm := re_system_include.match(entry, pos):
             resource.meta.append(Metadata(sm[1], sm[2][1:-1]))
-        elif entry and not entry.isspace():
-            raise ValueError(f"Unexpected content in DTD: {entry}")
+            pos = sm.end()
+        rest = entry[pos:]
+        if rest and not rest.isspace():
+            raise ValueError(f"Unexpected content in DTD: {rest}")
+
+    def handle_standalone_comment(comment: str) -> None:
+        if entries or resource.comment:
+            entries.append(Comment(comment))
+        else:
+            resource.comment = comment
 
     pos = 0
     at_newline = True
     comment: str = ""
     if not isinstance(source, str):
         source = str(source, "utf8")
-    for match in re_comment.finditer(source):
+    for match in re_token.finditer(source):
+        if match[1] is None:
+            continue
         cstart = match.start(0)
         has_prev_entries = False
         for entry in dtd_iter(source, pos, endpos=cstart):
@@ -85,10 +105,7 @@ def dtd_parse(source: str | bytes) -> Resource[Message]:
                 handle_other_content(entry)
                 lines = entry.split("\n")
                 if comment and len(lines) > 2:
-                    if entries or resource.comment:
-                        entries.append(Comment(comment))
-                    else:
-                        resource.comment = comment
+                    handle_standalone_comment(comment)
                     comment = ""
                 at_newline = len(lines) > 1
             else:
@@ -113,6 +130,9 @@ def dtd_parse(source: str | bytes) -> Resource[Message]:
         for entry in dtd_iter(source, pos):
             if isinstance(entry, str):
                 handle_other_content(entry)
+                if comment and entry.count("\n") > 1:
+                    handle_standalone_comment(comment)
+                    comment = ""
             else:
                 if comment:
                     entry.comment = comment
diff --git a/python/moz/l10n/formats/dtd/serialize.py b/python/moz/l10n/formats/dtd/serialize.py
index 85dd14e..338ef82 100644
--- a/python/moz/l10n/formats/dtd/serialize.py
+++ b/python/moz/l10n/formats/dtd/serialize.py
@@ -19,7 +19,7 @@ from re import UNICODE, compile
 from typing import Any
 
 from ...model import Entry, Message, PatternMessage, Resource
-from .parse import name, re_comment
+from .parse import name
 
 re_name = compile(name, UNICODE)
 
@@ -76,14 +76,14 @@ def dtd_serialize(
 
     def quote(value: str) -> str:
         if '"' in value and "'" not in value:
-            quoted = f"'{value}'"
-        else:
-            quoted = value.replace('"', "&quot;")
-            quoted = f'"{quoted}"'
-        return re_comment.sub("", quoted)
+            return f"'{value}'"
+        quoted = value.replace('"', "&quot;")
+        return f'"{quoted}"'
 
     yield from comment(resource.comment, None, True)
     for meta in resource.meta:
+        if not re_name.fullmatch(meta.key):
+            raise ValueError(f"Unsupported DTD name: {meta.key}")
         yield f"<!ENTITY % {meta.key} SYSTEM {quote(meta.value)}>\n%{meta.key};\n"
     for section in resource.sections:
         yield from comment(section.comment, section.meta, True)
-- 
2.43.0


From 79592a8e844cae76ef7032e1f6f3ddfb871b4ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:00 +0000
Subject: [PATCH 021/106] fix: do not take a part of a DTD entity name for
 whitespace

---
 python/moz/l10n/formats/dtd/parse.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/python/moz/l10n/formats/dtd/parse.py b/python/moz/l10n/formats/dtd/parse.py
index 98ed37c..923abac 100644
--- a/python/moz/l10n/formats/dtd/parse.py
+++ b/python/moz/l10n/formats/dtd/parse.py
@@ -39,12 +39,16 @@ name_start_char = (
 )
 name_char = name_start_char + r"\-\.0-9" + "\xb7\u0300-\u036f\u203f-\u2040"
 name = f"[{name_start_char}][{name_char}]*"
+# U+1680 OGHAM SPACE MARK is whitespace, but also a valid name character
+pre_name_space = r"[^\S\u1680]+"
 re_entity = compile(
-    r"<!ENTITY\s+(" + name + r")\s+((?:\"[^\"]*\")|(?:'[^']*'))\s*>",
+    r"<!ENTITY" + pre_name_space + "(" + name + r")\s+((?:\"[^\"]*\")|(?:'[^']*'))\s*>",
     DOTALL | UNICODE,
 )
 re_system_include = compile(
-    r"\s*<!ENTITY\s+%\s+("
+    r"\s*<!ENTITY\s+%"
+    + pre_name_space
+    + "("
     + name
     + r")\s+SYSTEM\s+((?:\"[^\"]*\")|(?:'[^']*'))\s*>\s*%\1;\s*",
     DOTALL | UNICODE,
@@ -55,7 +59,8 @@ re_comment = compile(r"\<!\s*--(.*?)--\s*\>", MULTILINE | DOTALL)
 # A comment, or an entity declaration with a value that might look like it has one
 re_token = compile(
     re_comment.pattern
-    + r"|<!ENTITY\s+(?:%\s+)?"
+    + r"|<!ENTITY(?:\s+%)?"
+    + pre_name_space
     + name
     + r"\s+(?:SYSTEM\s+)?(?:\"[^\"]*\"|'[^']*')\s*>",
     MULTILINE | DOTALL | UNICODE,
-- 
2.43.0


From cdd88212ee5f2545c04cc9bf7940e2f8df9b1b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:26 +0000
Subject: [PATCH 022/106] fix: let no name, value or comment of an .inc file
 add or break another message

---
 python/moz/l10n/formats/inc/parse.py     |  5 ++++-
 python/moz/l10n/formats/inc/serialize.py | 15 +++++++++++----
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/python/moz/l10n/formats/inc/parse.py b/python/moz/l10n/formats/inc/parse.py
index 0c3c8b1..6709ca2 100644
--- a/python/moz/l10n/formats/inc/parse.py
+++ b/python/moz/l10n/formats/inc/parse.py
@@ -20,6 +20,7 @@ from ...model import Comment, Entry, Message, PatternMessage, Resource, Section
 from .. import Format
 
 re_define = compile(r"#define[ \t]+(\w+)(?:[ \t](.*))?")
+re_newline = compile(r"\r\n?|\n")
 
 
 def inc_parse(source: str | bytes) -> Resource[Message]:
@@ -34,11 +35,13 @@ def inc_parse(source: str | bytes) -> Resource[Message]:
     comment: str = ""
     if not isinstance(source, str):
         source = str(source, "utf8")
-    for line in source.splitlines():
+    for line in re_newline.split(source):
         if not line or line.isspace():
             if comment:
                 entries.append(Comment(comment))
                 comment = ""
+        elif line == "#" and comment:
+            comment += "\n"
         elif line.startswith("# "):
             nc = line[2:].lstrip()
             if nc.startswith("#"):
diff --git a/python/moz/l10n/formats/inc/serialize.py b/python/moz/l10n/formats/inc/serialize.py
index 2d12c58..179fe38 100644
--- a/python/moz/l10n/formats/inc/serialize.py
+++ b/python/moz/l10n/formats/inc/serialize.py
@@ -15,9 +15,13 @@
 from __future__ import annotations
 
 from collections.abc import Iterator
+from re import compile
 from typing import Any
 
 from ...model import Entry, Message, PatternMessage, Resource
+from .parse import re_define, re_newline
+
+re_name = compile(r"\w+")
 
 
 def inc_serialize(
@@ -31,7 +35,8 @@ def inc_serialize(
 
     Non-string message values and metadata is not supported.
 
-    Comment lines not starting with `#` will be prefixed with `# `.
+    Comment lines not starting with `#`, or that would define a message,
+    will be prefixed with `# `.
 
     Yields each line separately.
     """
@@ -40,8 +45,8 @@ def inc_serialize(
         if meta:
             raise ValueError("Metadata is not supported")
         if comment:
-            for line in comment.strip("\n").split("\n"):
-                if line.startswith("#"):
+            for line in re_newline.split(comment.strip("\n")):
+                if line.startswith("#") and not re_define.fullmatch(line):
                     if not trim_comments or not line.startswith("# "):
                         yield f"{line}\n"
                 elif not trim_comments:
@@ -60,6 +65,8 @@ def inc_serialize(
                 yield from comment(entry.comment, entry.meta, False)
                 if len(entry.id) != 1:
                     raise ValueError(f"Unsupported identifier: {entry.id}")
+                if not re_name.fullmatch(entry.id[0]):
+                    raise ValueError(f"Unsupported name: {entry.id[0]}")
                 msg = entry.value
                 if isinstance(msg, str):
                     value = msg
@@ -69,7 +76,7 @@ def inc_serialize(
                     value = "".join(msg.pattern)  # type: ignore[arg-type]
                 else:
                     raise ValueError(f"Unsupported message for {entry.id[0]}: {msg}")
-                value = value.replace("\n", " ")
+                value = re_newline.sub(" ", value)
                 yield f"#define {entry.id[0]} {value}\n"
                 yield "\n"
             else:
-- 
2.43.0


From 4fff91c04e0faf74ad52762266f988825bf6df49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:44 +0000
Subject: [PATCH 023/106] fix: refuse .ini ids and values that would be read as
 comments, and keep line separators in values

---
 python/moz/l10n/formats/ini/serialize.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/python/moz/l10n/formats/ini/serialize.py b/python/moz/l10n/formats/ini/serialize.py
index 6be53ae..9c7a280 100644
--- a/python/moz/l10n/formats/ini/serialize.py
+++ b/python/moz/l10n/formats/ini/serialize.py
@@ -80,10 +80,11 @@ def ini_serialize(
                     value = "".join(msg.pattern)  # type: ignore[arg-type]
                 else:
                     raise ValueError(f"Unsupported message for {entry.id}: {msg}")
-                lines = value.rstrip().splitlines()
+                lines = value.rstrip().split("\n")
+                if search(r"^[^;]*[^\s;]\s+;", lines[0]):
+                    raise ValueError(f"Unsupported value for {entry.id}: {value}")
                 yield (
-                    f"{id_str(entry.id)}={lines.pop(0) if lines else ''}".rstrip()
-                    + "\n"
+                    f"{id_str(entry.id, is_entry=True)}={lines.pop(0)}".rstrip() + "\n"
                 )
                 for line in lines:
                     ls = line.rstrip()
@@ -93,8 +94,11 @@ def ini_serialize(
                 yield from comment(entry.comment, None, True)
 
 
-def id_str(id: tuple[str, ...]) -> str:
+def id_str(id: tuple[str, ...], *, is_entry: bool = False) -> str:
     name = ".".join(id)
     if search(r"^\s|[\n:=[\]]|\s$", name):
         raise ValueError(f"Unsupported character in identifier: {id}")
+    if not name or (is_entry and search(r"^([;#]|[rR][eE][mM])", name)):
+        # Would be parsed as a comment
+        raise ValueError(f"Unsupported identifier: {id}")
     return name
-- 
2.43.0


From e71238a41bb6c8592bc3288714f5133e8782b222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:01 +0000
Subject: [PATCH 024/106] fix: let the position of a .properties entry at the
 end of a file cover all its lines

---
 python/moz/l10n/formats/properties/parse.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/moz/l10n/formats/properties/parse.py b/python/moz/l10n/formats/properties/parse.py
index 1c2f01b..48d43e4 100644
--- a/python/moz/l10n/formats/properties/parse.py
+++ b/python/moz/l10n/formats/properties/parse.py
@@ -102,6 +102,9 @@ def properties_parse(
             if entry.linepos and line > entry.linepos.key:
                 entry.linepos.value = line
                 entry.linepos.end = line + 1
+            if prev_linepos and not source.endswith(("\n", "\r"), 0, parser.pos):
+                # At the end of the source, with no line break after the value
+                prev_linepos.end = parser.line_pos + 1
             entry = None
         else:
             if prev_linepos:
-- 
2.43.0


From d6d75417e2a2afbaaeba00b6b7334a0214cae858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:22 +0000
Subject: [PATCH 025/106] fix: gettext comments with other line breaks than \n
 are not written as .po syntax

---
 python/moz/l10n/formats/gettext/serialize.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/python/moz/l10n/formats/gettext/serialize.py b/python/moz/l10n/formats/gettext/serialize.py
index ca065f2..5176506 100644
--- a/python/moz/l10n/formats/gettext/serialize.py
+++ b/python/moz/l10n/formats/gettext/serialize.py
@@ -48,7 +48,7 @@ def gettext_serialize(
 
     pf = POFile(wrapwidth=wrapwidth)
     if not trim_comments and resource.comment and not resource.comment.isspace():
-        pf.header = resource.comment.rstrip() + "\n"
+        pf.header = fix_newlines(resource.comment).rstrip() + "\n"
     pf.metadata = {m.key: m.value for m in resource.meta}
     yield str(pf)
 
@@ -115,7 +115,7 @@ def gettext_serialize(
                         f"Value for {entry.id} is not supported: {entry.value}"
                     )
                 if not trim_comments and entry.comment:
-                    pe.comment = entry.comment.lstrip("\n").rstrip()
+                    pe.comment = fix_newlines(entry.comment).lstrip("\n").rstrip()
                 for m in entry.meta:
                     if m.key == "obsolete":
                         pe.obsolete = m.value != "false"
@@ -123,7 +123,7 @@ def gettext_serialize(
                         pe.msgid_plural = m.value
                     elif not trim_comments:
                         if m.key == "translator-comments":
-                            cs = (m.value).lstrip("\n").rstrip()
+                            cs = fix_newlines(m.value).lstrip("\n").rstrip()
                             pe.tcomment = f"{pe.tcomment}\n{cs}" if pe.tcomment else cs
                         elif m.key == "reference":
                             pos = m.value.split(":", 1)
@@ -143,3 +143,8 @@ def gettext_serialize(
                 raise ValueError(
                     f"Standalone comments are not supported: {entry.comment}"
                 )
+
+
+def fix_newlines(comment: str) -> str:
+    # polib only considers \n when writing comments, but any line boundary when parsing
+    return "\n".join(comment.splitlines())
-- 
2.43.0


From b775d2ff6157955313f38e64507d259f518e4465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:28 +0000
Subject: [PATCH 026/106] fix: gettext references without a line number do not
 gain a colon

---
 python/moz/l10n/formats/gettext/parse.py     | 4 ++--
 python/moz/l10n/formats/gettext/serialize.py | 5 +----
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/python/moz/l10n/formats/gettext/parse.py b/python/moz/l10n/formats/gettext/parse.py
index 45b74ef..a1b9c39 100644
--- a/python/moz/l10n/formats/gettext/parse.py
+++ b/python/moz/l10n/formats/gettext/parse.py
@@ -56,7 +56,7 @@ def gettext_parse(
     Messages may include the following metadata:
     - `translator-comments`
     - `extracted-comments`
-    - `reference`: `f"{file}:{line}"`, separately for each reference
+    - `reference`: `f"{file}:{line}"` or `file`, separately for each reference
     - `obsolete`: `""`
     - `flag`: separately for each flag
     - `plural`
@@ -72,7 +72,7 @@ def gettext_parse(
         if pe.tcomment:
             meta.append(Metadata("translator-comments", pe.tcomment))
         for file, line in pe.occurrences:
-            meta.append(Metadata("reference", f"{file}:{line}"))
+            meta.append(Metadata("reference", f"{file}:{line}" if line else file))
         if pe.obsolete:
             if skip_obsolete:
                 continue
diff --git a/python/moz/l10n/formats/gettext/serialize.py b/python/moz/l10n/formats/gettext/serialize.py
index 5176506..0e4fe68 100644
--- a/python/moz/l10n/formats/gettext/serialize.py
+++ b/python/moz/l10n/formats/gettext/serialize.py
@@ -126,10 +126,7 @@ def gettext_serialize(
                             cs = fix_newlines(m.value).lstrip("\n").rstrip()
                             pe.tcomment = f"{pe.tcomment}\n{cs}" if pe.tcomment else cs
                         elif m.key == "reference":
-                            pos = m.value.split(":", 1)
-                            pe.occurrences.append(
-                                (pos[0], pos[1]) if len(pos) == 2 else (m.value, "")
-                            )
+                            pe.occurrences.append((m.value, ""))
                         elif m.key == "flag":
                             pe.flags.append(m.value)
                         else:
-- 
2.43.0


From 06be9bab8c157b746d9f2054c5a17b99cdc6dc69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:53 +0000
Subject: [PATCH 027/106] fix: gettext plural variants are not dropped from
 serialized messages

---
 python/moz/l10n/formats/gettext/serialize.py | 40 ++++++++++----------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/python/moz/l10n/formats/gettext/serialize.py b/python/moz/l10n/formats/gettext/serialize.py
index 0e4fe68..a74bfd1 100644
--- a/python/moz/l10n/formats/gettext/serialize.py
+++ b/python/moz/l10n/formats/gettext/serialize.py
@@ -87,28 +87,28 @@ def gettext_serialize(
                         for keys, pattern in msg.variants.items()
                     )
                 ):
-                    catchall_name = plurals[-1] if plurals else str(nplurals - 1)
-                    variants = tuple(
-                        (
-                            (
-                                key
-                                if isinstance(key := keys[0], str)
-                                else key.value or catchall_name
-                            ),
-                            "".join(cast(Sequence[str], pattern)),
-                        )
-                        for keys, pattern in msg.variants.items()
+                    names = plurals or [str(idx) for idx in range(10)]
+                    catchall_name = (
+                        plurals[-1]
+                        if plurals
+                        else str(max(nplurals, len(msg.variants)) - 1)
                     )
-                    pe.msgstr_plural = {
-                        idx: next(
-                            (
-                                pattern
-                                for key, pattern in variants
-                                if key == (plurals[idx] if plurals else str(idx))
-                            ),
-                            "",
+                    variants: dict[int, str] = {}
+                    for keys, pattern in msg.variants.items():
+                        if isinstance(key := keys[0], str):
+                            name = key
+                        else:
+                            name = key.value if key.value in names else catchall_name
+                        if name not in names or names.index(name) in variants:
+                            raise ValueError(
+                                f"Unsupported plural key {name} for {entry.id}"
+                            )
+                        variants[names.index(name)] = "".join(
+                            cast(Sequence[str], pattern)
                         )
-                        for idx in range(nplurals)
+                    pe.msgstr_plural = {
+                        idx: variants.get(idx, "")
+                        for idx in range(max(nplurals, max(variants, default=0) + 1))
                     }
                 else:
                     raise ValueError(
-- 
2.43.0


From dc9bf4e316a96f07f929b9e526cace6f89f984b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:18 +0000
Subject: [PATCH 028/106] fix: refuse gettext section ids and message ids with
 more than two parts

---
 python/moz/l10n/formats/gettext/serialize.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/moz/l10n/formats/gettext/serialize.py b/python/moz/l10n/formats/gettext/serialize.py
index a74bfd1..ac1732b 100644
--- a/python/moz/l10n/formats/gettext/serialize.py
+++ b/python/moz/l10n/formats/gettext/serialize.py
@@ -60,12 +60,16 @@ def gettext_serialize(
             nplurals = int(pm[1])
 
     for section in resource.sections:
+        if section.id:
+            raise ValueError(f"Section identifiers are not supported: {section.id}")
         if section.comment:
             raise ValueError("Section comments are not supported")
         if section.meta:
             raise ValueError("Section metadata is not supported")
         for entry in section.entries:
             if isinstance(entry, Entry):
+                if len(entry.id) not in (1, 2):
+                    raise ValueError(f"Unsupported message id: {entry.id}")
                 context = entry.id[1] if len(entry.id) == 2 else None
                 pe = POEntry(msgctxt=context, msgid=entry.id[0])
                 msg = entry.value
-- 
2.43.0


From 67d3c5da283b00f534a6d060b3dc83821dba640f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:35 +0000
Subject: [PATCH 029/106] fix: only write Fluent numbers as number literals

---
 python/moz/l10n/formats/fluent/serialize.py | 22 +++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/python/moz/l10n/formats/fluent/serialize.py b/python/moz/l10n/formats/fluent/serialize.py
index 9312a18..f8eb385 100644
--- a/python/moz/l10n/formats/fluent/serialize.py
+++ b/python/moz/l10n/formats/fluent/serialize.py
@@ -356,13 +356,11 @@ def variant_key(
     key: str | CatchallKey, other: str
 ) -> ftl.NumberLiteral | ftl.Identifier:
     kv = str(key) or other
-    try:
-        float(kv)
+    if number.fullmatch(kv):
         return ftl.NumberLiteral(kv)
-    except Exception:
-        if fullmatch(r"[a-zA-Z][\w-]*", kv):
-            return ftl.Identifier(kv)
-        raise ValueError(f"Unsupported variant key: {kv}")
+    if fullmatch(r"[a-zA-Z][\w-]*", kv):
+        return ftl.Identifier(kv)
+    raise ValueError(f"Unsupported variant key: {kv}")
 
 
 def flat_pattern(
@@ -514,16 +512,20 @@ def function_ref(
 esc_cc = {n: f"\\u{n:04X}" for r in (range(0, 32), range(127, 160)) for n in r}
 esc_bs = compile(r'([\\"])')
 
+number = compile(r"-?[0-9]+(?:\.[0-9]+)?")
+
+
+def string_literal(val: str) -> ftl.StringLiteral:
+    return ftl.StringLiteral(esc_bs.sub(r"\\\1", val).translate(esc_cc))
+
 
 def value(
     decl: dict[str, Expression], val: str | VariableRef, decl_name: str = ""
 ) -> ftl.InlineExpression:
     if isinstance(val, str):
-        try:
-            float(val)
+        if number.fullmatch(val):
             return ftl.NumberLiteral(val)
-        except Exception:
-            return ftl.StringLiteral(esc_bs.sub(r"\\\1", val).translate(esc_cc))
+        return string_literal(val)
     elif val.name != decl_name and val.name in decl:
         return expression(decl, decl[val.name], val.name)
     else:
-- 
2.43.0


From e259ca2f45f202891b3b1ad4815281c4e7d34f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:36 +0000
Subject: [PATCH 030/106] fix: Fluent string literals stay strings when they
 look like numbers

---
 python/moz/l10n/formats/fluent/serialize.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/python/moz/l10n/formats/fluent/serialize.py b/python/moz/l10n/formats/fluent/serialize.py
index f8eb385..0f2939e 100644
--- a/python/moz/l10n/formats/fluent/serialize.py
+++ b/python/moz/l10n/formats/fluent/serialize.py
@@ -374,7 +374,7 @@ def flat_pattern(
                 ws = ws_at_start.match(el)
                 if ws is not None:
                     ws_end = ws.end()
-                    elements.append(ftl.Placeable(value(decl, el[:ws_end])))
+                    elements.append(ftl.Placeable(string_literal(el[:ws_end])))
                     if ws_end == len(el):
                         continue
                     el = el[ws_end:]
@@ -384,7 +384,7 @@ def flat_pattern(
                     ws_start = ws.start()
                     if ws_start > 0:
                         elements += text(el[:ws_start], escape_syntax)
-                    elements.append(ftl.Placeable(value(decl, el[ws_start:])))
+                    elements.append(ftl.Placeable(string_literal(el[ws_start:])))
                     continue
             elements += text(el, escape_syntax)
         elif isinstance(el, Expression):
@@ -410,7 +410,7 @@ def valid_empty_pattern(pattern: ftl.Pattern) -> ftl.Pattern:
     empty_text = "".join(
         el.value for el in pattern.elements if isinstance(el, ftl.TextElement)
     )
-    return ftl.Pattern([ftl.Placeable(value({}, empty_text))])
+    return ftl.Pattern([ftl.Placeable(string_literal(empty_text))])
 
 
 not_text = compile(r"[{}]+|\n *[*.[]")
@@ -437,7 +437,13 @@ def text(source: str, escape_syntax: bool) -> list[ftl.TextElement | ftl.Placeab
 def expression(
     decl: dict[str, Expression], expr: Expression, decl_name: str = ""
 ) -> ftl.InlineExpression:
-    arg = value(decl, expr.arg, decl_name) if expr.arg is not None else None
+    arg: ftl.InlineExpression | None
+    if expr.arg is None:
+        arg = None
+    elif isinstance(expr.arg, str) and expr.function in (None, "string"):
+        arg = string_literal(expr.arg)
+    else:
+        arg = value(decl, expr.arg, decl_name)
     if expr.function:
         return function_ref(decl, arg, expr)
     if arg:
@@ -478,7 +484,7 @@ def function_ref(
         if not arg:
             raise ValueError("Argument required for :number")
         if not ftl_name:
-            if named:
+            if named or isinstance(arg, ftl.StringLiteral):
                 ftl_name = "NUMBER"
             else:
                 return arg
-- 
2.43.0


From 7e9d5405f10264680dc33bb577d8ca52c3ca3fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:37 +0000
Subject: [PATCH 031/106] fix: refuse names that are not Fluent identifiers

---
 python/moz/l10n/formats/fluent/serialize.py | 32 ++++++++++++---------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/python/moz/l10n/formats/fluent/serialize.py b/python/moz/l10n/formats/fluent/serialize.py
index 0f2939e..4686b40 100644
--- a/python/moz/l10n/formats/fluent/serialize.py
+++ b/python/moz/l10n/formats/fluent/serialize.py
@@ -204,7 +204,7 @@ def fluent_astify_entry(
     )
     attributes = list(
         ftl.Attribute(
-            ftl.Identifier(key),
+            identifier(key),
             fluent_astify_message(val, escape_empty=True, escape_syntax=escape_syntax),
         )
         for key, val in entry.properties.items()
@@ -221,13 +221,13 @@ def fluent_astify_entry(
         c_str = comment_str(entry)
     comment = ftl.Comment(c_str) if c_str else None
     if is_term:
-        return ftl.Term(ftl.Identifier(id[1:]), value, attributes, comment)
+        return ftl.Term(identifier(id[1:]), value, attributes, comment)
     else:
         if pattern_is_empty(value):
             value_ = None if attributes else valid_empty_pattern(value)
         else:
             value_ = value
-        return ftl.Message(ftl.Identifier(id), value_, attributes, comment)
+        return ftl.Message(identifier(id), value_, attributes, comment)
 
 
 def fluent_serialize_message(
@@ -358,9 +358,13 @@ def variant_key(
     kv = str(key) or other
     if number.fullmatch(kv):
         return ftl.NumberLiteral(kv)
-    if fullmatch(r"[a-zA-Z][\w-]*", kv):
-        return ftl.Identifier(kv)
-    raise ValueError(f"Unsupported variant key: {kv}")
+    return identifier(kv)
+
+
+def identifier(name: str) -> ftl.Identifier:
+    if not fullmatch(r"[a-zA-Z][a-zA-Z0-9_-]*", name):
+        raise ValueError(f"Unsupported identifier: {name}")
+    return ftl.Identifier(name)
 
 
 def flat_pattern(
@@ -460,7 +464,7 @@ def function_ref(
     for name, val in expr.options.items():
         ftl_val = value(decl, val)
         if isinstance(ftl_val, ftl.Literal):
-            named.append(ftl.NamedArgument(ftl.Identifier(name), ftl_val))
+            named.append(ftl.NamedArgument(identifier(name), ftl_val))
         else:
             raise ValueError(
                 f"Fluent option value must be literal for {name}: {ftl_val}"
@@ -493,25 +497,27 @@ def function_ref(
             raise ValueError(
                 "Message and term references must have a literal message identifier"
             )
-        match = fullmatch(r"(-?[a-zA-Z][\w-]*)(?:\.([a-zA-Z][\w-]*))?", arg.value)
+        match = fullmatch(r"(-?[^.]+)(?:\.(.+))?", arg.value)
         if not match:
             raise ValueError(f"Invalid message or term identifier: {arg.value}")
         msg_id = match[1]
         msg_attr = match[2]
-        attr = ftl.Identifier(msg_attr) if msg_attr else None
+        attr = identifier(msg_attr) if msg_attr else None
         if msg_id[0] == "-":
             args = ftl.CallArguments(named=named) if named else None
-            return ftl.TermReference(ftl.Identifier(msg_id[1:]), attr, args)
+            return ftl.TermReference(identifier(msg_id[1:]), attr, args)
         elif named:
             raise ValueError("Options on message references are not supported")
         else:
-            return ftl.MessageReference(ftl.Identifier(msg_id), attr)
+            return ftl.MessageReference(identifier(msg_id), attr)
 
     if not ftl_name or not isinstance(ftl_name, str):
         raise ValueError(f"A @fluent-fn attribute is required for :{function}")
 
+    if not fullmatch(r"[A-Z][A-Z0-9_-]*", ftl_name):
+        raise ValueError(f"Unsupported function name: {ftl_name}")
     args = ftl.CallArguments([arg] if arg else None, named)
-    return ftl.FunctionReference(ftl.Identifier(ftl_name), args)
+    return ftl.FunctionReference(identifier(ftl_name), args)
 
 
 # Non-printable ASCII C0 & C1 / Unicode Cc characters
@@ -535,4 +541,4 @@ def value(
     elif val.name != decl_name and val.name in decl:
         return expression(decl, decl[val.name], val.name)
     else:
-        return ftl.VariableReference(ftl.Identifier(val.name))
+        return ftl.VariableReference(identifier(val.name))
-- 
2.43.0


From 30d0302aeddde0a33f9146c902d1daeeb0a58d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:38 +0000
Subject: [PATCH 032/106] fix: refuse section ids in Fluent

---
 python/moz/l10n/formats/fluent/serialize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/moz/l10n/formats/fluent/serialize.py b/python/moz/l10n/formats/fluent/serialize.py
index 4686b40..459489b 100644
--- a/python/moz/l10n/formats/fluent/serialize.py
+++ b/python/moz/l10n/formats/fluent/serialize.py
@@ -140,6 +140,8 @@ def fluent_astify(
     if res_comment:
         body.append(ftl.ResourceComment(res_comment))
     for idx, section in enumerate(resource.sections):
+        if section.id:
+            raise ValueError(f"Section identifiers not supported: {section.id}")
         section_comment = comment_str(section)
         if (not trim_comments and idx != 0) or section_comment:
             body.append(ftl.GroupComment(section_comment))
-- 
2.43.0


From b5d375af4c865827db35ec996f79e35782fd1f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:39 +0000
Subject: [PATCH 033/106] fix: empty Fluent variants are valid

---
 python/moz/l10n/formats/fluent/serialize.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/moz/l10n/formats/fluent/serialize.py b/python/moz/l10n/formats/fluent/serialize.py
index 459489b..0ced9c9 100644
--- a/python/moz/l10n/formats/fluent/serialize.py
+++ b/python/moz/l10n/formats/fluent/serialize.py
@@ -307,6 +307,10 @@ def fluent_astify_message(
         (list(keys), flat_pattern(message.declarations, value, escape_syntax))
         for keys, value in message.variants.items()
     ]
+    variants = [
+        (keys, valid_empty_pattern(pattern) if pattern_is_empty(pattern) else pattern)
+        for keys, pattern in variants
+    ]
 
     other = fallback_name(message)
     keys0 = variants[0][0]
-- 
2.43.0


From fec6ce34b57659d7fa0bcb67cf5f6add9fa0c841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:40 +0000
Subject: [PATCH 034/106] fix: escape Fluent text that does not survive as such

---
 python/moz/l10n/formats/fluent/serialize.py | 38 +++++++++++++++++----
 1 file changed, 31 insertions(+), 7 deletions(-)

diff --git a/python/moz/l10n/formats/fluent/serialize.py b/python/moz/l10n/formats/fluent/serialize.py
index 0ced9c9..f41c2fc 100644
--- a/python/moz/l10n/formats/fluent/serialize.py
+++ b/python/moz/l10n/formats/fluent/serialize.py
@@ -377,7 +377,9 @@ def flat_pattern(
     decl: dict[str, Expression], pattern: Pattern, escape_syntax: bool
 ) -> ftl.Pattern:
     elements: list[ftl.TextElement | ftl.Placeable] = []
+    pattern = join_strings(pattern)
     last = len(pattern) - 1
+    multiline = any(isinstance(el, str) and "\n" in el for el in pattern)
     for idx, el in enumerate(pattern):
         if isinstance(el, str):
             if idx == 0:
@@ -388,6 +390,10 @@ def flat_pattern(
                     if ws_end == len(el):
                         continue
                     el = el[ws_end:]
+                elif multiline and el[0] in "*.[":
+                    # Otherwise, the first line would not be indented.
+                    elements.append(ftl.Placeable(string_literal(el[0])))
+                    el = el[1:]
             if idx == last:
                 ws = ws_at_end.search(el)
                 if ws is not None:
@@ -404,6 +410,17 @@ def flat_pattern(
     return ftl.Pattern(elements)
 
 
+def join_strings(pattern: Pattern) -> Pattern:
+    """Drop empty strings, and join adjacent ones."""
+    res: Pattern = []
+    for el in pattern:
+        if isinstance(el, str) and res and isinstance(res[-1], str):
+            res[-1] += el
+        elif el != "":
+            res.append(el)
+    return res
+
+
 def pattern_is_empty(pattern: ftl.Pattern) -> bool:
     return all(
         isinstance(el, ftl.TextElement) and (el.value == "" or el.value.isspace())
@@ -423,7 +440,11 @@ def valid_empty_pattern(pattern: ftl.Pattern) -> ftl.Pattern:
     return ftl.Pattern([ftl.Placeable(string_literal(empty_text))])
 
 
-not_text = compile(r"[{}]+|\n *[*.[]")
+# Syntax characters, anything other than \n that starts a new line for Fluent or Python,
+# characters not allowed at the start of a line, and lines with only spaces.
+not_text = compile(
+    r"([{}]+|[\r\v\f\x1C-\x1E\x85\u2028\u2029]+)|\n *([*.[])|\n( +)(?=\n)"
+)
 
 
 def text(source: str, escape_syntax: bool) -> list[ftl.TextElement | ftl.Placeable]:
@@ -432,12 +453,11 @@ def text(source: str, escape_syntax: bool) -> list[ftl.TextElement | ftl.Placeab
     elements: list[ftl.TextElement | ftl.Placeable] = []
     idx = 0
     for m in not_text.finditer(source):
-        start = m.start()
-        esc = m[0].lstrip()
-        start += len(m[0]) - len(esc)
+        esc = m[1] or m[2] or m[3]
+        start = m.end() - len(esc)
         if start > idx:
             elements.append(ftl.TextElement(source[idx:start]))
-        elements.append(ftl.Placeable(ftl.StringLiteral(esc)))
+        elements.append(ftl.Placeable(string_literal(esc)))
         idx = m.end()
     if idx < len(source):
         elements.append(ftl.TextElement(source[idx:]))
@@ -526,8 +546,12 @@ def function_ref(
     return ftl.FunctionReference(identifier(ftl_name), args)
 
 
-# Non-printable ASCII C0 & C1 / Unicode Cc characters
-esc_cc = {n: f"\\u{n:04X}" for r in (range(0, 32), range(127, 160)) for n in r}
+# Non-printable ASCII C0 & C1 / Unicode Cc characters, and Unicode line separators
+esc_cc = {
+    n: f"\\u{n:04X}"
+    for r in (range(0, 32), range(127, 160), range(0x2028, 0x202A))
+    for n in r
+}
 esc_bs = compile(r'([\\"])')
 
 number = compile(r"-?[0-9]+(?:\.[0-9]+)?")
-- 
2.43.0


From 84aa2233d8eba4cb3cffbae5c0e2c87948af0861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:41 +0000
Subject: [PATCH 035/106] fix: keep relative indentation when parsing a Fluent
 message

---
 python/moz/l10n/formats/fluent/parse.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/formats/fluent/parse.py b/python/moz/l10n/formats/fluent/parse.py
index 1bcecb2..10e2700 100644
--- a/python/moz/l10n/formats/fluent/parse.py
+++ b/python/moz/l10n/formats/fluent/parse.py
@@ -168,11 +168,12 @@ def fluent_parse_message(source: str) -> Message:
 
     Leading and trailing whitespace is stripped.
     """
-    source = source.lstrip().replace("\n", "\n ")
+    # Each line is indented, so that only their common indent is removed.
+    source = " " + source.lstrip().replace("\n", "\n ")
     parser = FluentParser(with_spans=False)
     ps = FluentParserStream(source)
     try:
-        ftl_pattern = parser.get_pattern(ps, is_block=False)
+        ftl_pattern = parser.get_pattern(ps, is_block=True)
     except ParseError as err:
         raise ValueError(err.message or "Fluent parser error") from err
     return message(ftl_pattern)
-- 
2.43.0


From baff6066fdc93fe8a5d6c8b689f76292b322f1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:23 +0000
Subject: [PATCH 036/106] fix: serialize Android resources as XML, not as HTML

As HTML, elements like <br> are not closed, the contents of others are
not escaped, and a CDATA section ends at any ]]> in its contents.
---
 python/moz/l10n/formats/android/serialize.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/python/moz/l10n/formats/android/serialize.py b/python/moz/l10n/formats/android/serialize.py
index 322ab9a..d8361e1 100644
--- a/python/moz/l10n/formats/android/serialize.py
+++ b/python/moz/l10n/formats/android/serialize.py
@@ -159,7 +159,7 @@ def android_serialize(
         for entity in entities:
             yield f"  {entity}\n"
         yield "]>\n"
-    yield etree.tostring(root, encoding="unicode", method="html")
+    yield etree.tostring(root, encoding="unicode")
     yield "\n"
 
 
@@ -174,11 +174,7 @@ def android_serialize_message(msg: Message | str, *, allow_cdata: bool = False)
 
     target = etree.Element("string")
     set_pattern_message(target, msg, allow_cdata=allow_cdata)
-    string = etree.tostring(
-        target, encoding="unicode", method="html", pretty_print=True
-    ).strip()
-    if string == "<string/>":
-        return ""
+    string = etree.tostring(target, encoding="unicode")
     if not string.startswith("<string>"):
         raise ValueError(f"Invalid serialization: {string}")
     # trim <string>...</string> wrapper
@@ -288,9 +284,7 @@ def set_pattern_message(
         el.text = escape_part(msg)
         escape_pattern(el)
         if allow_cdata and tag_like.search(el.text) is not None:
-            # The manual wrapper is a workaround for
-            # https://bugs.launchpad.net/lxml/+bug/2111509
-            el.text = etree.CDATA(f"<![CDATA[{el.text}]]>")
+            el.text = etree.CDATA(el.text)
     elif isinstance(msg, PatternMessage) and not msg.declarations:
         set_pattern(el, msg.pattern, allow_cdata=allow_cdata)
     else:
@@ -392,9 +386,7 @@ def set_pattern(
         and el.text
         and tag_like.search(el.text) is not None
     ):
-        # The manual wrapper is a workaround for
-        # https://bugs.launchpad.net/lxml/+bug/2111509
-        el.text = etree.CDATA(f"<![CDATA[{el.text}]]>")
+        el.text = etree.CDATA(el.text)
 
 
 def entity_name(part: Expression) -> str | None:
@@ -426,6 +418,9 @@ def escape_part(src: str) -> str:
 
 
 def escape_pattern(el: etree._Element) -> None:
+    if not el.text:
+        # Ensures that an end tag is always used
+        el.text = ""
     if el.text and el.text.startswith((" ", "@", "?")):
         el.text = escape_char(el.text[0]) + el.text[1:]
     if len(el) > 0:
-- 
2.43.0


From a6a17eca7cbd78e31b21229d86f681d12cb07804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:55 +0000
Subject: [PATCH 037/106] fix: an Android placeholder does not extend over an
 escape

---
 python/moz/l10n/formats/android/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/android/parse.py b/python/moz/l10n/formats/android/parse.py
index b941d2a..9d1f351 100644
--- a/python/moz/l10n/formats/android/parse.py
+++ b/python/moz/l10n/formats/android/parse.py
@@ -435,7 +435,7 @@ inline_re = compile(
     r"\\u([0-9a-fA-F]{4})|"
     r"\\(.)|"
     r"(<[^%>]+>)|"
-    r"(%(?:[1-9]\$|<)?[-#+ 0,(]?[0-9.]*([tT]?.))"
+    r"(%(?:[1-9]\$|<)?[-#+ 0,(]?[0-9.]*([tT]?[^\\\n]))"
 )
 block_tag_re = compile(r"<(div|h[123456r]|p|d[dt]|li|/?[dou]l)\b")
 break_tag_re = compile(r"<[bh]r/?>")
-- 
2.43.0


From 8ed4bee2b5ae84d0b5cc89f611b20b9835c218ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:55 +0000
Subject: [PATCH 038/106] fix: escape all control codes in Android strings

---
 python/moz/l10n/formats/android/serialize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/android/serialize.py b/python/moz/l10n/formats/android/serialize.py
index d8361e1..2c364bd 100644
--- a/python/moz/l10n/formats/android/serialize.py
+++ b/python/moz/l10n/formats/android/serialize.py
@@ -405,7 +405,7 @@ android_escape = str.maketrans(
 )
 
 # Control codes are not valid in XML, and nonstandard whitespace needs escaping
-control_chars = compile(r"[\x00-\x19\x7F-\x9F]|[^\S ]|(?<= ) ")
+control_chars = compile(r"[\x00-\x1F\x7F-\x9F]|[^\S ]|(?<= ) ")
 
 
 def escape_char(ch: str) -> str:
-- 
2.43.0


From 89470f68c3e6bcd9168d2599b695b3fad2b0152b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:55 +0000
Subject: [PATCH 039/106] fix: unescape the literal contents of <xliff:g> in
 Android strings

They are escaped when serialized, so each round added backslashes.
---
 python/moz/l10n/formats/android/parse.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/python/moz/l10n/formats/android/parse.py b/python/moz/l10n/formats/android/parse.py
index 9d1f351..eb217de 100644
--- a/python/moz/l10n/formats/android/parse.py
+++ b/python/moz/l10n/formats/android/parse.py
@@ -377,7 +377,7 @@ def flatten(el: etree._Element) -> Iterator[str | Expression | Markup]:
                                 arg = VariableRef(get_var_name(gc))
                                 attr["source"] = gc
                             else:
-                                arg = gc
+                                arg = unescape(gc)
                             if options:
                                 yield Expression(arg, name, options, attributes=attr)
                             else:
@@ -394,6 +394,19 @@ def flatten(el: etree._Element) -> Iterator[str | Expression | Markup]:
             yield child.tail
 
 
+escape_re = compile(r"\\u([0-9a-fA-F]{4})|\\(.)")
+
+
+def unescape(src: str) -> str:
+    return escape_re.sub(
+        lambda m: chr(int(m[1], base=16)) if m[1] else unescape_char(m[2]), src
+    )
+
+
+def unescape_char(c: str) -> str:
+    return "\n" if c == "n" else "\t" if c == "t" else c
+
+
 double_quote = compile(r'(?<!\\)"')
 tag_like = compile(r"<.+>")
 
@@ -470,8 +483,7 @@ def parse_inline(
                     acc += chr(int(m[1], base=16))
                 elif m[2]:
                     # Escaped character
-                    c = m[2]
-                    acc += "\n" if c == "n" else "\t" if c == "t" else c
+                    acc += unescape_char(m[2])
                 elif m[3]:
                     # Escaped HTML element, e.g. &lt;b>
                     # HTML elements containing internal % formatting are not wrapped as literals
-- 
2.43.0


From 4d344c8c0fd6849875b216d6645682eda99339ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:56 +0000
Subject: [PATCH 040/106] fix: Android spaces are not lost between adjacent
 strings

---
 python/moz/l10n/formats/android/serialize.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/moz/l10n/formats/android/serialize.py b/python/moz/l10n/formats/android/serialize.py
index 2c364bd..5a37508 100644
--- a/python/moz/l10n/formats/android/serialize.py
+++ b/python/moz/l10n/formats/android/serialize.py
@@ -311,6 +311,9 @@ def set_pattern(
     for part in pattern:
         if isinstance(part, str):
             esc = escape_part(part)
+            prev = parent.text if node is None else node.tail
+            if prev and prev.endswith(" ") and esc.startswith(" "):
+                esc = escape_char(" ") + esc[1:]
             if node is None:
                 parent.text = parent.text + esc if parent.text else esc
             else:
-- 
2.43.0


From 0e1962b8302a95feb7dd3db13c1296486422b3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:57 +0000
Subject: [PATCH 041/106] fix: ampersands and quotes in Android entity values
 are text

They are serialized as &amp; and &quot;, which were parsed as references.
---
 python/moz/l10n/formats/android/parse.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/python/moz/l10n/formats/android/parse.py b/python/moz/l10n/formats/android/parse.py
index eb217de..7f042b2 100644
--- a/python/moz/l10n/formats/android/parse.py
+++ b/python/moz/l10n/formats/android/parse.py
@@ -260,20 +260,30 @@ def comment_str(body: list[str | None]) -> str:
     return "\n\n".join(lines).strip("\n")
 
 
+# Predefined entities that represent text within an entity value
+entity_chars = {"amp": "&", "apos": "'", "quot": '"'}
 entity_ref = compile(f"&({xml_name.pattern});")
 
 
 def parse_entity_value(src: str | None) -> Iterator[str | Expression]:
     if src:
         pos = 0
+        text = ""
         for m in entity_ref.finditer(src):
             start = m.start()
-            if start > pos:
-                yield src[pos:start]
-            yield Expression(VariableRef(m[1]), "entity")
+            name = m[1]
+            text += src[pos:start]
+            if name in entity_chars:
+                text += entity_chars[name]
+            else:
+                if text:
+                    yield text
+                    text = ""
+                yield Expression(VariableRef(name), "entity")
             pos = m.end()
-        if pos < len(src):
-            yield src[pos:]
+        text += src[pos:]
+        if text:
+            yield text
 
 
 def parse_plurals(
-- 
2.43.0


From 1566a57f95c2ae579c17b0760bf5c30e3a706028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:59 +0000
Subject: [PATCH 042/106] fix: comments do not count as Android string-array
 items

---
 python/moz/l10n/formats/android/serialize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/android/serialize.py b/python/moz/l10n/formats/android/serialize.py
index 5a37508..e8400bc 100644
--- a/python/moz/l10n/formats/android/serialize.py
+++ b/python/moz/l10n/formats/android/serialize.py
@@ -244,7 +244,7 @@ def set_string_array_item(
         num = int(entry.id[1])
     except ValueError:
         raise ValueError(f"Unsupported entry id: {entry.id}")
-    if num != len(parent):
+    if num != sum(1 for item in parent if item.tag == "item"):
         raise ValueError(f"String-array keys must be ordered: {entry.id}")
     if isinstance(entry.value, SelectMessage):
         raise ValueError(f"Unsupported message type for {entry.id}: {entry.value}")
-- 
2.43.0


From 3e3f0732fe38b4c152972ebd710e12e19f9eaa53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:00 +0000
Subject: [PATCH 043/106] fix: standalone Android comments are not moved into a
 preceding string-array

---
 python/moz/l10n/formats/android/serialize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/android/serialize.py b/python/moz/l10n/formats/android/serialize.py
index e8400bc..1c2b174 100644
--- a/python/moz/l10n/formats/android/serialize.py
+++ b/python/moz/l10n/formats/android/serialize.py
@@ -131,7 +131,7 @@ def android_serialize(
                         add_comment(string_array, entry.comment, False)
                     set_string_array_item(string_array, entry)
             elif not trim_comments:
-                add_comment(string_array or root, entry.comment, True)
+                add_comment(root, entry.comment, True)
 
     etree.cleanup_namespaces(root, {"xliff": xliff_ns})
 
-- 
2.43.0


From 08ac31bfd5f577cd50369730a16de72b037eb33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:02 +0000
Subject: [PATCH 044/106] fix: Android surrogate pair escapes are a single
 character

---
 python/moz/l10n/formats/android/parse.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/android/parse.py b/python/moz/l10n/formats/android/parse.py
index 7f042b2..cb782c8 100644
--- a/python/moz/l10n/formats/android/parse.py
+++ b/python/moz/l10n/formats/android/parse.py
@@ -490,7 +490,12 @@ def parse_inline(
                     at_br = False
                 if m[1]:
                     # Unicode escape
-                    acc += chr(int(m[1], base=16))
+                    ch = chr(int(m[1], base=16))
+                    if "\udc00" <= ch <= "\udfff" and "\ud800" <= acc[-1:] <= "\udbff":
+                        hi, lo = ord(acc[-1]) - 0xD800, ord(ch) - 0xDC00
+                        acc = acc[:-1] + chr(0x10000 + (hi << 10) + lo)
+                    else:
+                        acc += ch
                 elif m[2]:
                     # Escaped character
                     acc += unescape_char(m[2])
-- 
2.43.0


From b235a0839fbdf5038d882d563135260d5557d77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:31 +0000
Subject: [PATCH 045/106] fix: XML comments within an Android string are not
 markup

---
 python/moz/l10n/formats/android/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/android/parse.py b/python/moz/l10n/formats/android/parse.py
index cb782c8..0d40c56 100644
--- a/python/moz/l10n/formats/android/parse.py
+++ b/python/moz/l10n/formats/android/parse.py
@@ -353,7 +353,7 @@ def flatten(el: etree._Element) -> Iterator[str | Expression | Markup]:
     for child in el:
         if isinstance(child, etree._Entity):
             yield Expression(VariableRef(child.name), "entity")
-        else:
+        elif isinstance(child.tag, str):  # Not a comment or processing instruction
             name = (
                 f"{child.prefix}:{etree.QName(cast(str, child.tag)).localname}"
                 if child.prefix
-- 
2.43.0


From ae16287cb3e5fcb39319aaeae443f5b789fcc0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:55 +0000
Subject: [PATCH 046/106] fix: whitespace is not a placeholder conversion in
 Android strings

---
 python/moz/l10n/formats/android/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/android/parse.py b/python/moz/l10n/formats/android/parse.py
index 0d40c56..3dfe592 100644
--- a/python/moz/l10n/formats/android/parse.py
+++ b/python/moz/l10n/formats/android/parse.py
@@ -458,7 +458,7 @@ inline_re = compile(
     r"\\u([0-9a-fA-F]{4})|"
     r"\\(.)|"
     r"(<[^%>]+>)|"
-    r"(%(?:[1-9]\$|<)?[-#+ 0,(]?[0-9.]*([tT]?[^\\\n]))"
+    r"(%(?:[1-9]\$|<)?[-#+ 0,(]?[0-9.]*([tT]?[^\\\s]))"
 )
 block_tag_re = compile(r"<(div|h[123456r]|p|d[dt]|li|/?[dou]l)\b")
 break_tag_re = compile(r"<[bh]r/?>")
-- 
2.43.0


From 69d1556db38b4f7977a3c4d8677b2ac7284aacc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:56 +0000
Subject: [PATCH 047/106] fix: unescape the contents of escaped HTML tags in
 Android strings

They are escaped when serialized, so each round added backslashes.
---
 python/moz/l10n/formats/android/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/android/parse.py b/python/moz/l10n/formats/android/parse.py
index 3dfe592..a768bca 100644
--- a/python/moz/l10n/formats/android/parse.py
+++ b/python/moz/l10n/formats/android/parse.py
@@ -502,7 +502,7 @@ def parse_inline(
                 elif m[3]:
                     # Escaped HTML element, e.g. &lt;b>
                     # HTML elements containing internal % formatting are not wrapped as literals
-                    tag = m[3]
+                    tag = unescape(m[3])
                     if acc.endswith(" ") and block_tag_re.match(tag):
                         yield acc[:-1] + "\n"
                         acc = ""
-- 
2.43.0


From fc3ad1c8ed6879894fe0898cf343261551fef2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:36 +0000
Subject: [PATCH 048/106] fix: use the xliff prefix for markup in Android
 messages

---
 python/moz/l10n/formats/android/serialize.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/formats/android/serialize.py b/python/moz/l10n/formats/android/serialize.py
index 1c2b174..526df78 100644
--- a/python/moz/l10n/formats/android/serialize.py
+++ b/python/moz/l10n/formats/android/serialize.py
@@ -372,10 +372,12 @@ def set_pattern(
             else:
                 name = part.name
             attrib = cast(dict[str, str], part.options)
+            is_xliff = name.startswith(f"{{{xliff_ns}}}")
+            nsmap = {"xliff": xliff_ns} if is_xliff else None
             if part.kind == "standalone":
-                node = etree.SubElement(parent, name, attrib=attrib)
+                node = etree.SubElement(parent, name, attrib=attrib, nsmap=nsmap)
             elif part.kind == "open":
-                parent = etree.SubElement(parent, name, attrib=attrib)
+                parent = etree.SubElement(parent, name, attrib=attrib, nsmap=nsmap)
                 node = None
             elif parent != el and name == parent.tag:  # kind == 'close'
                 node = parent
-- 
2.43.0


From c619ed2ecf7b2c89deccd370cf6da9dcff01b4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:32 +0000
Subject: [PATCH 049/106] fix: do not add whitespace around inline elements in
 XLIFF messages

---
 python/moz/l10n/formats/xliff/serialize.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/moz/l10n/formats/xliff/serialize.py b/python/moz/l10n/formats/xliff/serialize.py
index 8e08d62..c4db05b 100644
--- a/python/moz/l10n/formats/xliff/serialize.py
+++ b/python/moz/l10n/formats/xliff/serialize.py
@@ -488,3 +488,7 @@ def set_pattern(el: etree._Element, pattern: Pattern) -> None:
                 add_text(part_source)
             else:
                 raise ValueError(f"Unsupported expression: {part}")
+
+    if len(el) > 0 and el.text is None:
+        # Any text content prevents whitespace being added by pretty-printing
+        el.text = ""
-- 
2.43.0


From fe54330eb0696acf0af8d0c5e6394bbc6bf98bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:33 +0000
Subject: [PATCH 050/106] fix: skip comments and processing instructions within
 XLIFF messages

---
 .../l10n/formats/xliff/parse_trans_unit.py    | 22 +++++++++----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/python/moz/l10n/formats/xliff/parse_trans_unit.py b/python/moz/l10n/formats/xliff/parse_trans_unit.py
index 0dcfad7..e8cdbce 100644
--- a/python/moz/l10n/formats/xliff/parse_trans_unit.py
+++ b/python/moz/l10n/formats/xliff/parse_trans_unit.py
@@ -16,7 +16,6 @@ from __future__ import annotations
 
 from collections import defaultdict
 from collections.abc import Iterator
-from typing import cast
 
 from lxml import etree
 
@@ -86,15 +85,16 @@ def parse_pattern(
         else:
             yield el.text
     for child in el:
-        q = etree.QName(cast(str, child.tag))
-        ns = q.namespace
-        name = q.localname if not ns or ns in xliff_ns else q.text
-        options: dict[str, str | VariableRef] = dict(child.attrib)
-        if name in ("x", "bx", "ex"):
-            yield Markup("standalone", name, options)
-        elif isinstance(child.tag, str):
-            yield Markup("open", name, options)
-            yield from parse_pattern(child, is_xcode)
-            yield Markup("close", name)
+        if isinstance(child.tag, str):
+            q = etree.QName(child.tag)
+            ns = q.namespace
+            name = q.localname if not ns or ns in xliff_ns else q.text
+            options: dict[str, str | VariableRef] = dict(child.attrib)
+            if name in ("x", "bx", "ex"):
+                yield Markup("standalone", name, options)
+            else:
+                yield Markup("open", name, options)
+                yield from parse_pattern(child, is_xcode)
+                yield Markup("close", name)
         if child.tail:
             yield child.tail
-- 
2.43.0


From 2489453d09fdb2ee6d3a46abe962fb3550b72141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:35 +0000
Subject: [PATCH 051/106] fix: parse Xcode placeholders also after inline
 elements

---
 python/moz/l10n/formats/xliff/parse_trans_unit.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/xliff/parse_trans_unit.py b/python/moz/l10n/formats/xliff/parse_trans_unit.py
index e8cdbce..d8996e2 100644
--- a/python/moz/l10n/formats/xliff/parse_trans_unit.py
+++ b/python/moz/l10n/formats/xliff/parse_trans_unit.py
@@ -97,4 +97,7 @@ def parse_pattern(
                 yield from parse_pattern(child, is_xcode)
                 yield Markup("close", name)
         if child.tail:
-            yield child.tail
+            if is_xcode:
+                yield from parse_xcode_pattern(child.tail)
+            else:
+                yield child.tail
-- 
2.43.0


From 13056dd44613602891a9d1b9e1097f9e151f37d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:36 +0000
Subject: [PATCH 052/106] fix: allow serializing parsed XLIFF markup with a
 namespace

---
 python/moz/l10n/formats/xliff/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/xliff/common.py b/python/moz/l10n/formats/xliff/common.py
index bc3f1b9..2fb5bdc 100644
--- a/python/moz/l10n/formats/xliff/common.py
+++ b/python/moz/l10n/formats/xliff/common.py
@@ -93,7 +93,7 @@ def pretty_name(el: _Element, name: str) -> str:
 
 def clark_name(nsmap: dict[str | None, str], name: str) -> str:
     """See https://lxml.de/tutorial.html#namespaces"""
-    if ":" not in name:
+    if ":" not in name or name.startswith("{"):
         return name
     ns, local = name.split(":", 1)
     if ns in nsmap:
-- 
2.43.0


From 399cb9eca017036d0c5cda372e728856e1de3e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:37 +0000
Subject: [PATCH 053/106] fix: keep XLIFF file comments before the file they
 describe

---
 python/moz/l10n/formats/xliff/serialize.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/xliff/serialize.py b/python/moz/l10n/formats/xliff/serialize.py
index c4db05b..9f19994 100644
--- a/python/moz/l10n/formats/xliff/serialize.py
+++ b/python/moz/l10n/formats/xliff/serialize.py
@@ -111,7 +111,11 @@ def xliff_serialize(
         indent = 2 * len(section.id)
         if section.comment:
             comment = etree.Comment(comment_body(section.comment, indent))
-            parent.addprevious(comment)
+            if len(section.id) == 1:
+                file = cast(etree._Element, parent.getparent())
+                file.addprevious(comment)
+            else:
+                parent.addprevious(comment)
 
         indent += 2
         for entry in section.entries:
-- 
2.43.0


From 1d425dcf212d106942f8c3a6be8fec04b06ed453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:50 +0000
Subject: [PATCH 054/106] fix: honor trim_comments for XLIFF file comments

---
 python/moz/l10n/formats/xliff/serialize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/xliff/serialize.py b/python/moz/l10n/formats/xliff/serialize.py
index 9f19994..adec936 100644
--- a/python/moz/l10n/formats/xliff/serialize.py
+++ b/python/moz/l10n/formats/xliff/serialize.py
@@ -109,7 +109,7 @@ def xliff_serialize(
                 assign_metadata(parent, section.meta, trim_comments)
             prev[parent_key] = parent
         indent = 2 * len(section.id)
-        if section.comment:
+        if section.comment and not trim_comments:
             comment = etree.Comment(comment_body(section.comment, indent))
             if len(section.id) == 1:
                 file = cast(etree._Element, parent.getparent())
-- 
2.43.0


From d512e8bb2ee0cdab9ece339d3b68dabcc716fee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:51 +0000
Subject: [PATCH 055/106] fix: detect empty XLIFF elements properly

---
 python/moz/l10n/formats/xliff/parse.py            | 2 +-
 python/moz/l10n/formats/xliff/parse_trans_unit.py | 2 +-
 python/moz/l10n/formats/xliff/serialize.py        | 4 +++-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/python/moz/l10n/formats/xliff/parse.py b/python/moz/l10n/formats/xliff/parse.py
index 2c8c8f9..a9ef48c 100644
--- a/python/moz/l10n/formats/xliff/parse.py
+++ b/python/moz/l10n/formats/xliff/parse.py
@@ -113,7 +113,7 @@ def xliff_parse(
                 elif child.tag == f"{ns}header":
                     meta += element_as_metadata(child, "header", True)
                 elif child.tag == f"{ns}body":
-                    if body:
+                    if body is not None:
                         raise ValueError(f"Duplicate <body> in <file>: {file}")
                     body = child
                 else:
diff --git a/python/moz/l10n/formats/xliff/parse_trans_unit.py b/python/moz/l10n/formats/xliff/parse_trans_unit.py
index d8996e2..8d509e0 100644
--- a/python/moz/l10n/formats/xliff/parse_trans_unit.py
+++ b/python/moz/l10n/formats/xliff/parse_trans_unit.py
@@ -52,7 +52,7 @@ def parse_trans_unit(
         else:
             name = pretty_name(el, str(el.tag))
             if name == msg_name:
-                if msg_el:
+                if msg_el is not None:
                     raise ValueError(
                         f"Duplicate <{msg_name}> in <trans-unit> {id}: {unit}"
                     )
diff --git a/python/moz/l10n/formats/xliff/serialize.py b/python/moz/l10n/formats/xliff/serialize.py
index adec936..479bba2 100644
--- a/python/moz/l10n/formats/xliff/serialize.py
+++ b/python/moz/l10n/formats/xliff/serialize.py
@@ -230,7 +230,9 @@ def add_unit(
         and unit.find("note") is None
     ):
         if msg_el is None:
-            prev_el = unit.find("target") or unit.find("source")
+            prev_el = unit.find("target")
+            if prev_el is None:
+                prev_el = unit.find("source")
             if prev_el is None:
                 raise ValueError(f"Invalid entry with no source: {unit}")
         else:
-- 
2.43.0


From 0d69b931450d90f68dae0018a9f63899acc82a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:24 +0000
Subject: [PATCH 056/106] fix: support Xcode substitutions with an untranslated
 base string

---
 python/moz/l10n/formats/xliff/parse_xcode.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/xliff/parse_xcode.py b/python/moz/l10n/formats/xliff/parse_xcode.py
index 6038374..efefe89 100644
--- a/python/moz/l10n/formats/xliff/parse_xcode.py
+++ b/python/moz/l10n/formats/xliff/parse_xcode.py
@@ -175,7 +175,9 @@ def parse_xliff_xcstrings(
 
                 sel_idx = msg.selectors.index(VariableRef(var_name))
                 for keys_, pattern in msg.variants.items():
-                    if str(keys_[sel_idx]) == id:
+                    if str(keys_[sel_idx]) == id and not sub_pattern:
+                        pattern[:] = var_pattern
+                    elif str(keys_[sel_idx]) == id:
                         sub_ph_idx = next(
                             idx
                             for idx, el in enumerate(pattern)
-- 
2.43.0


From 924338438219906445f4ebacc9cfc83ba5bb27b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:30 +0000
Subject: [PATCH 057/106] fix: keep the translation of Xcode plural format keys

---
 python/moz/l10n/formats/xliff/parse_xcode.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/moz/l10n/formats/xliff/parse_xcode.py b/python/moz/l10n/formats/xliff/parse_xcode.py
index efefe89..c76e718 100644
--- a/python/moz/l10n/formats/xliff/parse_xcode.py
+++ b/python/moz/l10n/formats/xliff/parse_xcode.py
@@ -390,6 +390,9 @@ def parse_xliff_stringsdict(
             meta += attrib_as_metadata(plural.format_key.unit, "format", ("id",))
             if plural.format_key.target is not None:
                 meta += attrib_as_metadata(plural.format_key.target, "format/target")
+                target_src = plural.format_key.target.text
+                if target_src and target_src != plural.format_key.source.text:
+                    meta.append(Metadata("format/target", target_src))
         msg = SelectMessage(
             declarations={plural.var_name: selector},
             selectors=(VariableRef(plural.var_name),),
-- 
2.43.0


From a8de8e800726bd99883574766d05a8068da6f503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:31 +0000
Subject: [PATCH 058/106] fix: keep each note of Xcode plurals and string
 catalogs

---
 python/moz/l10n/formats/xliff/parse_xcode.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/xliff/parse_xcode.py b/python/moz/l10n/formats/xliff/parse_xcode.py
index c76e718..9664d0a 100644
--- a/python/moz/l10n/formats/xliff/parse_xcode.py
+++ b/python/moz/l10n/formats/xliff/parse_xcode.py
@@ -314,8 +314,8 @@ def parse_xliff_xcstrings_unit(
     target = unit_data.target
     meta = attrib_as_metadata(unit_data.unit, None, ("id",))
     comments: list[str] = []
+    meta += notes_as_metadata(unit_data, "note")
     for note in unit_data.notes:
-        meta += element_as_metadata(note, "note", True)
         if note.text and not note.text.isspace():
             comments.append(note.text.strip())
     if from_source:
@@ -393,6 +393,7 @@ def parse_xliff_stringsdict(
                 target_src = plural.format_key.target.text
                 if target_src and target_src != plural.format_key.source.text:
                     meta.append(Metadata("format/target", target_src))
+            meta += notes_as_metadata(plural.format_key, "format/note")
         msg = SelectMessage(
             declarations={plural.var_name: selector},
             selectors=(VariableRef(plural.var_name),),
@@ -412,6 +413,7 @@ def parse_xliff_stringsdict(
                 else:
                     meta += attrib_as_metadata(variant.target, f"{key}/target")
                     pattern_src = variant.target.text
+            meta += notes_as_metadata(variant, f"{key}/note")
             msg.variants[(CatchallKey("other") if key == "other" else key,)] = list(
                 parse_xcode_pattern(pattern_src)
             )
@@ -499,6 +501,13 @@ def get_xcode_unit_data(ns: str, unit: etree._Element) -> XcodeUnitData:
     return XcodeUnitData(unit, source, target, notes)
 
 
+def notes_as_metadata(unit_data: XcodeUnitData, base: str) -> Iterator[Metadata]:
+    for idx, note in enumerate(unit_data.notes, start=1):
+        yield from element_as_metadata(
+            note, f"{base}[{idx}]" if idx > 1 else base, True
+        )
+
+
 def parse_xcode_pattern(src: str | None) -> Iterator[str | Expression]:
     if not src:
         return
-- 
2.43.0


From 8ec737d9549a039e9a12bdf3b50eea79f6000dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:57 +0000
Subject: [PATCH 059/106] fix: do not add empty targets to untranslated Xcode
 plural variants

---
 python/moz/l10n/formats/xliff/serialize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/moz/l10n/formats/xliff/serialize.py b/python/moz/l10n/formats/xliff/serialize.py
index 479bba2..548546d 100644
--- a/python/moz/l10n/formats/xliff/serialize.py
+++ b/python/moz/l10n/formats/xliff/serialize.py
@@ -333,6 +333,8 @@ def add_xliff_stringsdict_plural(
                 raise ValueError(f"Missing {key}/source metadata for {id}")
             target = unit.find("target")
             if target is None:
+                if not text:
+                    continue
                 target = etree.Element("target")
                 source.addnext(target)
             target.text = text
-- 
2.43.0


From 616a044153a420d38af6ae3d9a467f331380999b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:51 +0000
Subject: [PATCH 060/106] fix: do not ignore text at the start of XLIFF files

---
 python/moz/l10n/formats/xliff/parse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/moz/l10n/formats/xliff/parse.py b/python/moz/l10n/formats/xliff/parse.py
index a9ef48c..9a4c521 100644
--- a/python/moz/l10n/formats/xliff/parse.py
+++ b/python/moz/l10n/formats/xliff/parse.py
@@ -106,6 +106,8 @@ def xliff_parse(
                 raise ValueError(f'Missing "original" attribute for <file>: {file}')
             meta = attrib_as_metadata(file, None, ("original",))
             entries: list[Entry[Message] | Comment] = []
+            if file.text and not file.text.isspace():
+                raise ValueError(f"Unexpected text in <file>: {file.text}")
             body = None
             for child in file:
                 if isinstance(child, etree._Comment):
-- 
2.43.0


From eed9df0a1b22c44af21703a7026c8d98e195af75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:06 +0000
Subject: [PATCH 061/106] fix: do not ignore contents after a Fluent pattern in
 a single message

---
 python/moz/l10n/formats/fluent/parse.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/moz/l10n/formats/fluent/parse.py b/python/moz/l10n/formats/fluent/parse.py
index 10e2700..6709e99 100644
--- a/python/moz/l10n/formats/fluent/parse.py
+++ b/python/moz/l10n/formats/fluent/parse.py
@@ -176,6 +176,9 @@ def fluent_parse_message(source: str) -> Message:
         ftl_pattern = parser.get_pattern(ps, is_block=True)
     except ParseError as err:
         raise ValueError(err.message or "Fluent parser error") from err
+    ps.skip_blank()
+    if ps.current_char:
+        raise ValueError(f"Unexpected content after Fluent pattern: {source[ps.index :]}")
     return message(ftl_pattern)
 
 
-- 
2.43.0


From c0b8d2cdcb57d87e291c8b7ee6b06dfb1c986604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:39 +0000
Subject: [PATCH 062/106] fix: match special characters of path templates
 literally

---
 python/moz/l10n/paths/config.py | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/python/moz/l10n/paths/config.py b/python/moz/l10n/paths/config.py
index d639850..19f1cb8 100644
--- a/python/moz/l10n/paths/config.py
+++ b/python/moz/l10n/paths/config.py
@@ -20,7 +20,7 @@ from collections.abc import Callable, Iterator
 from glob import glob
 from os import sep
 from os.path import dirname, isfile, join, normpath, relpath
-from re import Pattern, compile
+from re import Pattern, compile, escape
 from typing import Any, cast
 
 from .android_locale import get_android_locale
@@ -31,7 +31,7 @@ else:
     from tomli import load
 
 path_stars = compile(r"[*](?:[*](?:[/\\][*]*)?)?")
-path_var = compile(r"{(\w+)}")
+path_special = compile(f"({path_stars.pattern}|{{\\w+}})")
 
 _DEFAULT_LOCALE_MAP: dict[str, Callable[[str], str]] = {
     "locale": lambda locale: locale,
@@ -56,14 +56,21 @@ def path_regex(path: str) -> Pattern[str]:
     """
     if path.startswith("{l10n_base}/"):
         path = path[12:]
-    path = path_stars.sub(
-        lambda m: (
-            "([^/]*)" if m[0] == "*" else "((?:.*/)?)" if m[0] == "**/" else "(.*)"
-        ),
-        path,
-    )
-    path = path_var.sub(r"(?P<\1>[^/]*)", path)
-    return compile(path)
+    pattern = ""
+    for idx, part in enumerate(path_special.split(path)):
+        if idx % 2 == 0:
+            pattern += escape(part)
+        elif part == "*":
+            pattern += "([^/]*)"
+        elif part == "**/":
+            pattern += "((?:.*/)?)"
+        elif part.startswith("*"):
+            pattern += "(.*)"
+        elif f"(?P<{part[1:-1]}>" in pattern:
+            pattern += f"(?P={part[1:-1]})"
+        else:
+            pattern += f"(?P<{part[1:-1]}>[^/]*)"
+    return compile(pattern)
 
 
 class PartialMap(dict[str, str]):
@@ -155,7 +162,7 @@ class L10nConfigPaths:
                         f"Wildcard mismatch between reference & l10n: {path}"
                     )
                 ref_re = compile(
-                    path_stars.sub("(.*)", ref.replace(sep, "/").replace(".", r"\."))
+                    "(.*)".join(map(escape, path_stars.split(ref.replace(sep, "/"))))
                 )
                 *tgt_parts, tgt_end = path_stars.split(target)
 
-- 
2.43.0


From 22d05e8c01ca2831aea81c8e37cf7cf5f1adcfa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:57 +0000
Subject: [PATCH 063/106] fix: find references for targets of .pot templates

---
 python/moz/l10n/paths/config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/paths/config.py b/python/moz/l10n/paths/config.py
index 19f1cb8..cdfe2c2 100644
--- a/python/moz/l10n/paths/config.py
+++ b/python/moz/l10n/paths/config.py
@@ -154,7 +154,8 @@ class L10nConfigPaths:
             target: str = path["l10n"]  # Note: not normalised, so sep=="/"
             if env_map:
                 target = target.format_map(env_map)
-            self._templates.append((path_stars.sub("{}", ref), path_regex(target)))
+            po_target = target[:-1] if target.endswith(".pot") else target
+            self._templates.append((path_stars.sub("{}", ref), path_regex(po_target)))
             locales: list[str] | None = path.get("locales", None)
             if "*" in ref:
                 if ref.count("*") != target.count("*"):
-- 
2.43.0


From e4ece59955ebbcd48c28100130a360c2fa541bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:59 +0000
Subject: [PATCH 064/106] fix: recognise .po files as references

---
 python/moz/l10n/paths/config.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/paths/config.py b/python/moz/l10n/paths/config.py
index cdfe2c2..9d85371 100644
--- a/python/moz/l10n/paths/config.py
+++ b/python/moz/l10n/paths/config.py
@@ -339,9 +339,9 @@ class L10nConfigPaths:
         if locale is not None and self._locales and locale not in self._locales:
             return None, set()
         norm_ref_path = normpath(join(self._ref_root, ref_path))
-        if norm_ref_path.endswith(".po"):
-            norm_ref_path += "t"
         pd = self._path_data.get(norm_ref_path, None)
+        if pd is None and norm_ref_path.endswith(".po"):
+            pd = self._path_data.get(norm_ref_path + "t", None)
         target = None
         locales = None
         if pd:
-- 
2.43.0


From 5c07b3e4036aa044c2235388c30c24c88f914a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:00 +0000
Subject: [PATCH 065/106] fix: normalise path templates when finding references

---
 python/moz/l10n/paths/config.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/moz/l10n/paths/config.py b/python/moz/l10n/paths/config.py
index 9d85371..58b0abf 100644
--- a/python/moz/l10n/paths/config.py
+++ b/python/moz/l10n/paths/config.py
@@ -20,6 +20,7 @@ from collections.abc import Callable, Iterator
 from glob import glob
 from os import sep
 from os.path import dirname, isfile, join, normpath, relpath
+from posixpath import normpath as posix_normpath
 from re import Pattern, compile, escape
 from typing import Any, cast
 
@@ -56,6 +57,7 @@ def path_regex(path: str) -> Pattern[str]:
     """
     if path.startswith("{l10n_base}/"):
         path = path[12:]
+    path = posix_normpath(path)
     pattern = ""
     for idx, part in enumerate(path_special.split(path)):
         if idx % 2 == 0:
-- 
2.43.0


From a90c91bc12b8c793a311c333a8e8d4acdbe04b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:02 +0000
Subject: [PATCH 066/106] fix: keep all locales when merging path entries

---
 python/moz/l10n/paths/config.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/python/moz/l10n/paths/config.py b/python/moz/l10n/paths/config.py
index 58b0abf..7472c05 100644
--- a/python/moz/l10n/paths/config.py
+++ b/python/moz/l10n/paths/config.py
@@ -294,10 +294,13 @@ class L10nConfigPaths:
         """
         all: dict[tuple[str, str], list[str] | None] = {}
         for key, locales in self._all(format_map):
-            prev = all.get(key, None)
-            if prev is None:
+            if key not in all:
                 all[key] = locales
-            elif locales:
+                continue
+            prev = all[key]
+            if prev is None or locales is None:
+                all[key] = None
+            else:
                 locales_ = list(set(prev).union(locales))
                 locales_.sort()
                 all[key] = locales_
-- 
2.43.0


From 12110c199cddcab01a118fa20d887452f52ccd3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:03 +0000
Subject: [PATCH 067/106] fix: consider forced paths in included configurations

---
 python/moz/l10n/paths/config.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/moz/l10n/paths/config.py b/python/moz/l10n/paths/config.py
index 7472c05..c8f4d4b 100644
--- a/python/moz/l10n/paths/config.py
+++ b/python/moz/l10n/paths/config.py
@@ -206,6 +206,7 @@ class L10nConfigPaths:
                         L10nConfigPaths(
                             incl_path,
                             cfg_load=cfg_load,
+                            force_paths=force_paths,
                             locale_map=locale_map,
                             _seen=_seen,
                         )
-- 
2.43.0


From fa351073f92d6d8ee51c508cc095eb7241a47c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:22 +0000
Subject: [PATCH 068/106] fix: match forced paths with every path entry

---
 python/moz/l10n/paths/config.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/python/moz/l10n/paths/config.py b/python/moz/l10n/paths/config.py
index c8f4d4b..341f198 100644
--- a/python/moz/l10n/paths/config.py
+++ b/python/moz/l10n/paths/config.py
@@ -181,13 +181,9 @@ class L10nConfigPaths:
                         self._path_data[ref_file][get_target(ref_file)] = locales
                 if fp:
                     ref_re = path_regex(ref.replace(sep, "/"))
-                    fp_match = {
-                        path for path in fp if ref_re.fullmatch(path.replace(sep, "/"))
-                    }
-                    if fp_match:
-                        for path in fp_match:
+                    for path in fp:
+                        if ref_re.fullmatch(path.replace(sep, "/")):
                             self._path_data[path][get_target(path)] = locales
-                        fp -= fp_match
             else:
                 self._path_data[ref][target] = locales
 
-- 
2.43.0


From d429c64eba1ac0a540e523378af337bdcb7f6af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:07 +0000
Subject: [PATCH 069/106] fix: allow for braces in discovered paths

---
 python/moz/l10n/paths/discover.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/paths/discover.py b/python/moz/l10n/paths/discover.py
index d40692d..fdc822d 100644
--- a/python/moz/l10n/paths/discover.py
+++ b/python/moz/l10n/paths/discover.py
@@ -279,7 +279,7 @@ class L10nDiscoverPaths:
 
     def format_target_path(self, target: str, locale: str) -> str:
         locale = _locale_dirname(self._base(), locale, self.locale_dir_sep)
-        return normpath(target.format(locale=locale))
+        return normpath(target.replace("{locale}", locale))
 
     def find_reference(self, target: str) -> tuple[str, dict[str, str]] | None:
         """
-- 
2.43.0


From 02d988a184ffa9abee0599842e77c1fc9d480374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:09 +0000
Subject: [PATCH 070/106] fix: recognise discovered .po files as references

---
 python/moz/l10n/paths/discover.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/paths/discover.py b/python/moz/l10n/paths/discover.py
index fdc822d..d218a2e 100644
--- a/python/moz/l10n/paths/discover.py
+++ b/python/moz/l10n/paths/discover.py
@@ -263,7 +263,7 @@ class L10nDiscoverPaths:
         If `locale` is not set, target path will include a `{locale}` variable.
         """
         ref_path = normpath(join(self._ref_root, ref_path))
-        if ref_path.endswith(".po"):
+        if ref_path.endswith(".po") and ref_path not in self.ref_paths:
             ref_path += "t"
         if ref_required and ref_path not in self.ref_paths:
             return None, ()
-- 
2.43.0


From 119e2477ed2c538657f0bb79b96e80c54d096d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:10 +0000
Subject: [PATCH 071/106] fix: discover localizations only within the root
 directory

---
 python/moz/l10n/paths/discover.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/paths/discover.py b/python/moz/l10n/paths/discover.py
index d218a2e..8fcfb51 100644
--- a/python/moz/l10n/paths/discover.py
+++ b/python/moz/l10n/paths/discover.py
@@ -171,7 +171,7 @@ class L10nDiscoverPaths:
         base_dirs = {
             bd: lds
             for bd, lds in base_dirs.items()
-            if not _dir_contains(self._ref_root, bd)
+            if _dir_contains(root, bd) and not _dir_contains(self._ref_root, bd)
         }
         # Walk up parents of each l10n_dir to gather base dirs containing
         # localizable files & avoid false positives on locale-id-like sub-dir names.
-- 
2.43.0


From 50246a1abcfebcab1252cfcc101285c7b2744168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:11 +0000
Subject: [PATCH 072/106] fix: do not list forced discovered paths twice

---
 python/moz/l10n/paths/discover.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/paths/discover.py b/python/moz/l10n/paths/discover.py
index 8fcfb51..8243317 100644
--- a/python/moz/l10n/paths/discover.py
+++ b/python/moz/l10n/paths/discover.py
@@ -216,7 +216,9 @@ class L10nDiscoverPaths:
         )
         if force_paths:
             self.ref_paths.extend(
-                path for path in force_paths if _dir_contains(self._ref_root, path)
+                path
+                for path in force_paths
+                if path not in self.ref_paths and _dir_contains(self._ref_root, path)
             )
 
     @property
-- 
2.43.0


From 2f89b5b58af16612bf6ac9905951d1c0ff6765d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:13 +0000
Subject: [PATCH 073/106] fix: discover paths in the current directory

---
 python/moz/l10n/paths/discover.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/paths/discover.py b/python/moz/l10n/paths/discover.py
index 8243317..4d4c525 100644
--- a/python/moz/l10n/paths/discover.py
+++ b/python/moz/l10n/paths/discover.py
@@ -18,7 +18,7 @@ import re
 from collections.abc import Iterable, Iterator
 from itertools import chain
 from os import sep, walk
-from os.path import commonpath, dirname, isdir, join, normpath, relpath, splitext
+from os.path import abspath, commonpath, dirname, isdir, join, normpath, relpath, splitext
 from typing import Literal
 
 from moz.l10n.formats import l10n_extensions
@@ -30,7 +30,8 @@ locale_id = re.compile(
 
 
 def _dir_contains(dir: str, path: str) -> bool:
-    return commonpath((dir, path)) == dir
+    dir = abspath(dir)
+    return commonpath((dir, abspath(path))) == dir
 
 
 def _locale_dirname(base: str, locale: str, locale_dir_sep: Literal["-", "_"]) -> str:
@@ -164,6 +165,7 @@ class L10nDiscoverPaths:
                 (rd for rd in ref_dirs.items() if rd[0] in ref_dirs_with_files),
                 key=lambda s: s[1],
             )[0]
+            self._ref_root = normpath(self._ref_root)
         else:
             raise MissingSourceDirectoryError
 
-- 
2.43.0


From 703b8d99733f6042c714d1ab6cf92e06493881a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:48 +0000
Subject: [PATCH 074/106] fix: do not detect nested JSON objects as webext
 messages

---
 python/moz/l10n/formats/__init__.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/__init__.py b/python/moz/l10n/formats/__init__.py
index f122e48..21da576 100644
--- a/python/moz/l10n/formats/__init__.py
+++ b/python/moz/l10n/formats/__init__.py
@@ -163,12 +163,17 @@ def is_webext_message(obj: Any) -> bool:
     has_message = False
     for key, value in obj.items():
         if key == "message":
+            if not isinstance(value, str):
+                return False
             has_message = True
         elif key == "description":
-            pass
+            if not isinstance(value, str):
+                return False
         elif key == "placeholders":
             if not isinstance(value, dict):
                 return False
+            if not all(isinstance(ph, dict) for ph in value.values()):
+                return False
         else:
             return False
     return has_message
-- 
2.43.0


From 97ac5782692f80a27eb1d4451727e96347d452e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:29 +0000
Subject: [PATCH 075/106] fix: skip directories matched by path patterns

---
 python/moz/l10n/bin/utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/bin/utils.py b/python/moz/l10n/bin/utils.py
index a5df375..7a18628 100644
--- a/python/moz/l10n/bin/utils.py
+++ b/python/moz/l10n/bin/utils.py
@@ -76,7 +76,12 @@ def handle_paths(
 
     elif file_paths:
         root_dir = os.getcwd()
-        path_iter = (path for fp in file_paths for path in glob(fp, recursive=True))
+        path_iter = (
+            path
+            for fp in file_paths
+            for path in glob(fp, recursive=True)
+            if path == fp or not os.path.isdir(path)
+        )
 
     else:
         log.error(LOG_ERROR_CONFIG_OR_PATHS)
-- 
2.43.0


From 04dddd5c1cb3f8172a5a5973789c55740e5707cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:30 +0000
Subject: [PATCH 076/106] fix: do not fail for directories without localization
 resources

---
 python/moz/l10n/bin/utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/bin/utils.py b/python/moz/l10n/bin/utils.py
index 7a18628..2f6f982 100644
--- a/python/moz/l10n/bin/utils.py
+++ b/python/moz/l10n/bin/utils.py
@@ -20,7 +20,7 @@ from collections.abc import Iterable, Sequence
 from glob import glob
 
 from moz.l10n.paths.config import L10nConfigPaths
-from moz.l10n.paths.discover import L10nDiscoverPaths
+from moz.l10n.paths.discover import L10nDiscoverPaths, MissingSourceDirectoryError
 
 LOG_FORMAT: str = "%(message)s"
 LOG_ERROR_CONFIG_AND_PATHS = "With --config, paths must not be set!"
@@ -72,7 +72,10 @@ def handle_paths(
 
     elif len(file_paths) == 1 and os.path.isdir(file_paths[0]):
         root_dir = os.path.abspath(file_paths[0])
-        path_iter = L10nDiscoverPaths(root_dir, ref_root=".").ref_paths
+        try:
+            path_iter = L10nDiscoverPaths(root_dir, ref_root=".").ref_paths
+        except MissingSourceDirectoryError:
+            path_iter = ()
 
     elif file_paths:
         root_dir = os.getcwd()
-- 
2.43.0


From 7c5a50ee74af90522d54e9820e8d941abc76c40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:16 +0000
Subject: [PATCH 077/106] fix: compare each localization with its own target
 paths

---
 python/moz/l10n/bin/compare.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/python/moz/l10n/bin/compare.py b/python/moz/l10n/bin/compare.py
index 32fa19c..a158c01 100644
--- a/python/moz/l10n/bin/compare.py
+++ b/python/moz/l10n/bin/compare.py
@@ -107,29 +107,25 @@ def cli(
         excluded = ext_exclude and any(path.endswith(ext) for ext in ext_exclude)
         return included and not excluded
 
+    source_paths: L10nConfigPaths | L10nDiscoverPaths | None = None
     if source.endswith(".json"):
         with open(source) as f:
             source_data: dict[str, Collection[str]] = json.load(f)
         if ext_include or ext_exclude:
             source_data = {k: set(v) for k, v in source_data.items() if ext_filter(k)}
     else:
-        source_paths: L10nConfigPaths | L10nDiscoverPaths = (
+        source_paths = (
             L10nConfigPaths(source)
             if source.endswith(".toml")
             else L10nDiscoverPaths(source, source)
         )
-        path0 = abspath(paths[0])
-        locale0 = basename(path0)
-        source_paths.base = dirname(path0)
+        source_paths.base = dirname(abspath(paths[0]))
         source_data = {}
         for ref_path, tgt_path in source_paths.all():
             if not ext_filter(tgt_path):
                 continue
             try:
-                path = relpath(
-                    source_paths.format_target_path(tgt_path, locale0), path0
-                )
-                source_data[path] = msg_ids(ref_path)
+                source_data[tgt_path] = msg_ids(ref_path)
             except UnsupportedFormat:
                 continue
 
@@ -145,7 +141,18 @@ def cli(
         if not isdir(path):
             continue
         lc = basename(normpath(path))
-        errors, missing = compare(source_data, path)
+        if source_paths is None:
+            path_data = source_data
+        else:
+            locale = basename(abspath(path))
+            locale_dir = join(source_paths.base, locale)
+            path_data = {
+                relpath(
+                    source_paths.format_target_path(tgt_path, locale), locale_dir
+                ): messages
+                for tgt_path, messages in source_data.items()
+            }
+        errors, missing = compare(path_data, path)
         if json_output:
             json_res[lc] = {
                 "errors": errors or None,
-- 
2.43.0


From 4843f72033869f2373bb6d0ac0b7f3caec68f965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:41 +0000
Subject: [PATCH 078/106] fix: compare only the files configured for each
 locale

---
 python/moz/l10n/bin/compare.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/bin/compare.py b/python/moz/l10n/bin/compare.py
index a158c01..d7cf8c3 100644
--- a/python/moz/l10n/bin/compare.py
+++ b/python/moz/l10n/bin/compare.py
@@ -108,6 +108,7 @@ def cli(
         return included and not excluded
 
     source_paths: L10nConfigPaths | L10nDiscoverPaths | None = None
+    source_locales: dict[str, list[str] | None] = {}
     if source.endswith(".json"):
         with open(source) as f:
             source_data: dict[str, Collection[str]] = json.load(f)
@@ -120,12 +121,14 @@ def cli(
             else L10nDiscoverPaths(source, source)
         )
         source_paths.base = dirname(abspath(paths[0]))
+        source_paths.locales = None
         source_data = {}
-        for ref_path, tgt_path in source_paths.all():
+        for (ref_path, tgt_path), tgt_locales in source_paths.all().items():
             if not ext_filter(tgt_path):
                 continue
             try:
                 source_data[tgt_path] = msg_ids(ref_path)
+                source_locales[tgt_path] = tgt_locales
             except UnsupportedFormat:
                 continue
 
@@ -151,6 +154,7 @@ def cli(
                     source_paths.format_target_path(tgt_path, locale), locale_dir
                 ): messages
                 for tgt_path, messages in source_data.items()
+                if (locales := source_locales[tgt_path]) is None or locale in locales
             }
         errors, missing = compare(path_data, path)
         if json_output:
-- 
2.43.0


From b0a655a2f1dc9821d29cbb1a936d51fcf7b9df9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:46 +0000
Subject: [PATCH 079/106] fix: keep file and section metadata in built files

---
 python/moz/l10n/bin/build.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/bin/build.py b/python/moz/l10n/bin/build.py
index 8e76184..cf73d07 100644
--- a/python/moz/l10n/bin/build.py
+++ b/python/moz/l10n/bin/build.py
@@ -167,10 +167,12 @@ def write_target_file(
             for entry in section.entries
             if isinstance(entry, Entry)
         }
+        l10n_meta = {section.id: section.meta for section in l10n_res.sections}
         l10n_res.sections = []
     else:
-        l10n_res = Resource(source_res.format, [])
+        l10n_res = Resource(source_res.format, [], meta=source_res.meta)
         l10n_map = {}
+        l10n_meta = {}
     # Fluent uses per-message fallback at runtime, allowing resources to be incomplete.
     is_fluent = source_res.format == Format.fluent
     msg_delta = 0
@@ -221,7 +223,8 @@ def write_target_file(
             for entry_ in section.entries
             if (entry := get_entry(section.id, entry_)) is not None
         ]
-        l10n_res.sections.append(Section(section.id, tgt_entries))
+        meta = l10n_meta.get(section.id, section.meta)
+        l10n_res.sections.append(Section(section.id, tgt_entries, meta=meta))
 
     msg = f"merge {name}"
     log.info(f"{msg} ({msg_delta:+d})" if msg_delta != 0 else msg)
-- 
2.43.0


From e4bebcd0185563afe32fc0aa400966a23081e5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:47 +0000
Subject: [PATCH 080/106] fix: build files into the current directory

---
 python/moz/l10n/bin/build_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/bin/build_file.py b/python/moz/l10n/bin/build_file.py
index 48601f9..d7a7435 100644
--- a/python/moz/l10n/bin/build_file.py
+++ b/python/moz/l10n/bin/build_file.py
@@ -64,7 +64,7 @@ def cli(
             source_res = parse_resource(source)
         except UnsupportedFormat:
             source_res = None
-        makedirs(dirname(target), exist_ok=True)
+        makedirs(dirname(target) or ".", exist_ok=True)
         total_count = 0
         missing_ids: list[str | list[str]] = []
         if source_res is None:
-- 
2.43.0


From fa64d0b0a689a71244462ec12d28ab96b6c167a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:10 +0000
Subject: [PATCH 081/106] fix: build empty JSON localizations in the format of
 their source

---
 python/moz/l10n/bin/build.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/moz/l10n/bin/build.py b/python/moz/l10n/bin/build.py
index cf73d07..bfff657 100644
--- a/python/moz/l10n/bin/build.py
+++ b/python/moz/l10n/bin/build.py
@@ -169,6 +169,9 @@ def write_target_file(
         }
         l10n_meta = {section.id: section.meta for section in l10n_res.sections}
         l10n_res.sections = []
+        if not l10n_map:
+            # The format of an empty JSON file can not be detected
+            l10n_res.format = source_res.format
     else:
         l10n_res = Resource(source_res.format, [], meta=source_res.meta)
         l10n_map = {}
-- 
2.43.0


From 6ac989e7c2337e42d0d08017ed8e86bbea236a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:48 +0000
Subject: [PATCH 082/106] fix: do not replace localizations that fail to parse
 when migrating

---
 python/moz/l10n/migrate/__init__.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/migrate/__init__.py b/python/moz/l10n/migrate/__init__.py
index 66bdcd5..8ced638 100644
--- a/python/moz/l10n/migrate/__init__.py
+++ b/python/moz/l10n/migrate/__init__.py
@@ -128,8 +128,14 @@ class Migrate:
             src_res: Resource[Message] | None = None
             for locale in locales:
                 ctx = MigrationContext(self.paths, ref_path, locale, self.parse_options)
+                tgt_path = self.paths.format_target_path(tgt_fmt, locale)
                 res = ctx.get_resource(ref_path)
                 if res is None:
+                    if isfile(tgt_path):
+                        log.warning(
+                            f"Failed to parse resource for {ref_path} for {locale}"
+                        )
+                        continue
                     if src_res is None:
                         src_res = _get_empty_resource(
                             join(self.paths.ref_root, ref_path)
@@ -152,7 +158,6 @@ class Migrate:
                     nc = len(changed)
                     entries = "1 entry" if nc == 1 else f"{nc} entries"
                     log.info(f"Adding {entries} to {ref_path} for locale {locale}")
-                    tgt_path = self.paths.format_target_path(tgt_fmt, locale)
                     if not dry_run:
                         with open(tgt_path, "w", encoding="utf-8") as file:
                             for line in serialize_resource(res):
-- 
2.43.0


From c58a093b677b4bd28c79cf619b0e7441399aab73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:50 +0000
Subject: [PATCH 083/106] fix: serialize migrated localizations before writing
 them

---
 python/moz/l10n/migrate/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/moz/l10n/migrate/__init__.py b/python/moz/l10n/migrate/__init__.py
index 8ced638..db4aac5 100644
--- a/python/moz/l10n/migrate/__init__.py
+++ b/python/moz/l10n/migrate/__init__.py
@@ -159,9 +159,9 @@ class Migrate:
                     entries = "1 entry" if nc == 1 else f"{nc} entries"
                     log.info(f"Adding {entries} to {ref_path} for locale {locale}")
                     if not dry_run:
-                        with open(tgt_path, "w", encoding="utf-8") as file:
-                            for line in serialize_resource(res):
-                                file.write(line)
+                        data = "".join(serialize_resource(res)).encode("utf-8")
+                        with open(tgt_path, "wb") as file:
+                            file.write(data)
                     all_changes[tgt_path] = changed
         return all_changes
 
-- 
2.43.0


From 272e20dae8635bcfb21363d289a5cdf1c1655f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:51 +0000
Subject: [PATCH 084/106] fix: create directories for migrated localizations

---
 python/moz/l10n/migrate/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/migrate/__init__.py b/python/moz/l10n/migrate/__init__.py
index db4aac5..386965b 100644
--- a/python/moz/l10n/migrate/__init__.py
+++ b/python/moz/l10n/migrate/__init__.py
@@ -17,7 +17,8 @@ from __future__ import annotations
 import dataclasses
 from copy import deepcopy
 from logging import getLogger
-from os.path import isdir, isfile, join
+from os import makedirs
+from os.path import dirname, isdir, isfile, join
 from typing import Any, Callable, Union
 
 from moz.l10n.formats import Format, detect_format
@@ -160,6 +161,7 @@ class Migrate:
                     log.info(f"Adding {entries} to {ref_path} for locale {locale}")
                     if not dry_run:
                         data = "".join(serialize_resource(res)).encode("utf-8")
+                        makedirs(dirname(tgt_path), exist_ok=True)
                         with open(tgt_path, "wb") as file:
                             file.write(data)
                     all_changes[tgt_path] = changed
-- 
2.43.0


From 22f43040ac3c50b0758ee949dfbfc44de44f8e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:52 +0000
Subject: [PATCH 085/106] fix: insert migrated entries only in sections of
 their own

---
 python/moz/l10n/migrate/utils.py | 38 +++++++++++++++++---------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/python/moz/l10n/migrate/utils.py b/python/moz/l10n/migrate/utils.py
index 6743bda..1c62772 100644
--- a/python/moz/l10n/migrate/utils.py
+++ b/python/moz/l10n/migrate/utils.py
@@ -158,37 +158,39 @@ def insert_entry_after(
     Insert `entry` in `res` after the last entry
     with an `.id` matching one of `src_ids`,
     or if none such are found,
-    at the end of the last section matching any of `ids`.
+    at the end of the last section that `entry.id` belongs to.
 
     Note that `entry.id` is expected to include its section id,
     which will be dropped before insertion.
+    Other sections are not considered.
 
     If no suitable insertion position is found, raises StopIteration.
     """
+    section_ids = [
+        section.id
+        for section in res.sections
+        if len(section.id) < len(entry.id)
+        and section.id == entry.id[: len(section.id)]
+    ]
+    if not section_ids:
+        raise StopIteration
+    section_id = max(section_ids, key=len)
+    sid_len = len(section_id)
+    entry.id = entry.id[sid_len:]
     id_set = {id if isinstance(id, tuple) else (id,) for id in src_ids}
+    eid_set = {id[sid_len:] for id in id_set if section_id == id[:sid_len]}
     last_section: Section[M] | None = None
     for section in reversed(res.sections):
-        if section.id:
-            sid_len = len(section.id)
-            eid_set = {id[sid_len:] for id in id_set if section.id == id[:sid_len]}
-            if not eid_set:
-                continue
-        else:
-            sid_len = 0
-            eid_set = id_set
+        if section.id != section_id:
+            continue
         for e_rev_idx, e in enumerate(reversed(section.entries)):
             if isinstance(e, Entry) and e.id in eid_set:
-                if sid_len:
-                    entry.id = entry.id[sid_len:]
                 section.entries.insert(len(section.entries) - e_rev_idx, entry)
                 return
-        last_section = section
-    if last_section is None:
-        raise StopIteration
-    else:
-        if last_section.id:
-            entry.id = entry.id[len(last_section.id) :]
-        last_section.entries.append(entry)
+        if last_section is None:
+            last_section = section
+    assert last_section is not None
+    last_section.entries.append(entry)
 
 
 def plural_message(
-- 
2.43.0


From 903107aaf15b01388c1ff3f64eef38c051c48183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:53 +0000
Subject: [PATCH 086/106] fix: skip migrated entries for which there is no
 section

---
 python/moz/l10n/migrate/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/migrate/__init__.py b/python/moz/l10n/migrate/__init__.py
index 386965b..e643fd8 100644
--- a/python/moz/l10n/migrate/__init__.py
+++ b/python/moz/l10n/migrate/__init__.py
@@ -419,5 +419,9 @@ def _create_entry(
     else:
         raise ValueError(f"Unsupported entry type {type(src_entry)}: {ctx}")
 
-    insert_entry_after(res, new_entry, *src_ids, *ctx._prev_ids)
+    try:
+        insert_entry_after(res, new_entry, *src_ids, *ctx._prev_ids)
+    except StopIteration:
+        log.warning(f"Section not found: {ctx}")
+        return None
     return new_entry
-- 
2.43.0


From 42a1f6ab66626636414f09c2a92a521eab4e3d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:54 +0000
Subject: [PATCH 087/106] fix: accept strings as migrated messages

---
 python/moz/l10n/migrate/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/moz/l10n/migrate/__init__.py b/python/moz/l10n/migrate/__init__.py
index e643fd8..c2d9d2e 100644
--- a/python/moz/l10n/migrate/__init__.py
+++ b/python/moz/l10n/migrate/__init__.py
@@ -410,6 +410,9 @@ def _create_entry(
     else:
         src_ids = {ctx.target_id}
 
+    if isinstance(src_entry, str):
+        src_entry = PatternMessage([src_entry])
+
     # For .ini and .xliff, new_entry.id will initially contain the section id.
     # This is dropped later in insert_entry_after().
     if isinstance(src_entry, Entry):
-- 
2.43.0


From b077e81a88fe537c146a503077a5c07b2c6d2321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:12 +0000
Subject: [PATCH 088/106] fix: copy all variants of migrated properties

---
 python/moz/l10n/migrate/__init__.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/python/moz/l10n/migrate/__init__.py b/python/moz/l10n/migrate/__init__.py
index c2d9d2e..c51c117 100644
--- a/python/moz/l10n/migrate/__init__.py
+++ b/python/moz/l10n/migrate/__init__.py
@@ -220,6 +220,13 @@ def copy(
                 log.debug(f"Copy-from entry not found: {ctx.pretty_id(id)}")
                 return None
 
+        if variant is None and property is not None:
+            entry = get_entry(res_, *id)
+            if entry and property in entry.properties:
+                message = deepcopy(entry.properties[property])
+                _replace_placeholders(message, replace)
+                return message, {id}
+
         try:
             pattern = get_pattern(res_, *id, property=property, variant=variant)
             pattern = deepcopy(pattern)
-- 
2.43.0


From 2173c138ed6992da5de060ea8341b9133388392a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:40 +0000
Subject: [PATCH 089/106] fix: refuse Fluent selectors without a default
 variant

---
 python/moz/l10n/formats/fluent/serialize.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/moz/l10n/formats/fluent/serialize.py b/python/moz/l10n/formats/fluent/serialize.py
index f41c2fc..ac40b9c 100644
--- a/python/moz/l10n/formats/fluent/serialize.py
+++ b/python/moz/l10n/formats/fluent/serialize.py
@@ -326,6 +326,7 @@ def fluent_astify_message(
             selector = selector.arguments.positional[0]
         base_keys = []
         sel_exp = None
+        sel_exps: list[ftl.SelectExpression] = []
         i = 0
         while i < len(variants):
             keys, pattern = variants[i]
@@ -339,8 +340,11 @@ def fluent_astify_message(
             else:
                 base_keys = keys
                 sel_exp = ftl.SelectExpression(selector.clone(), [ftl_variant])
+                sel_exps.append(sel_exp)
                 variants[i] = (keys, ftl.Pattern([ftl.Placeable(sel_exp)]))
                 i += 1
+        if any(sum(v.default for v in se.variants) != 1 for se in sel_exps):
+            raise ValueError("Each selector must have exactly one default variant")
     if len(variants) != 1:
         raise ValueError(f"Error resolving select message variants (n={len(variants)})")
     return variants[0][1]
-- 
2.43.0


From d0d5cf357095d8486305df4304aebba5d1390f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:46 +0000
Subject: [PATCH 090/106] fix: keep all text of Fluent patterns with multiple
 selectors on a variable

---
 python/moz/l10n/formats/fluent/parse.py | 64 +++++++++++++++++--------
 1 file changed, 43 insertions(+), 21 deletions(-)

diff --git a/python/moz/l10n/formats/fluent/parse.py b/python/moz/l10n/formats/fluent/parse.py
index 6709e99..1d76b45 100644
--- a/python/moz/l10n/formats/fluent/parse.py
+++ b/python/moz/l10n/formats/fluent/parse.py
@@ -14,6 +14,8 @@
 
 from __future__ import annotations
 
+from collections import defaultdict
+from collections.abc import Iterator
 from itertools import product
 from re import finditer
 from typing import cast
@@ -221,17 +223,29 @@ def fluent_entry(
 def message(ftl_pattern: ftl.Pattern) -> Message:
     sel_data = find_selectors(ftl_pattern, [])
     sel_expressions = [sd[0] for sd in sel_data]
-    filter: list[Key | None] = [None] * len(sel_expressions)
+    filter: list[set[Key] | None] = [None] * len(sel_expressions)
+    key_lists: list[list[Key]] = []
     msg_variants: dict[tuple[Key, ...], Pattern]
+    # For each variant, the indices of the selectors that match it by a non-default key.
+    # Other variants are not needed, as they're equal to ones with default keys.
+    key_matches: defaultdict[tuple[Key, ...], set[int]] = defaultdict(set)
     var_names: set[str] = set()
     if sel_expressions:
-        key_lists = [list(dict.fromkeys(sd[2])) for sd in sel_data]
-        for keys in key_lists:
-            keys.sort(key=lambda k: (k[2], not k[1]))
+        for sd in sel_data:
+            # Selectors with the same value may have different default keys
+            keys = list(dict.fromkeys(key for key in sd[2] if not key[2]))
+            keys.sort(key=lambda k: not k[1])
+            keys.append(next(key for key in sd[2] if key[2]))
+            key_lists.append(keys)
         msg_variants = {key: [] for key in product(*key_lists)}
     else:
         msg_variants = {(): []}
 
+    def filtered_variants() -> Iterator[tuple[tuple[Key, ...], Pattern]]:
+        for keys, msg_pattern in msg_variants.items():
+            if all((filt is None or key in filt) for key, filt in zip(keys, filter)):
+                yield keys, msg_pattern
+
     def add_pattern(ftl_pattern: ftl.Pattern) -> None:
         el: (
             ftl.TextElement
@@ -246,25 +260,29 @@ def message(ftl_pattern: ftl.Pattern) -> Message:
                 msg_sel = next(sd[0] for sd in sel_data if el.selector in sd[1])
                 idx = sel_expressions.index(msg_sel)
                 prev_filt = filter[idx]
-                for v in el.variants:
-                    filter[idx] = variant_key(v)
+                # If multiple variants have the same key, the first one is used
+                own = {variant_key(v): v for v in reversed(el.variants)}
+                own_keys = {key for key in own if not key[2]}
+                for msg_keys, _ in filtered_variants():
+                    if msg_keys[idx] in own_keys:
+                        key_matches[msg_keys].add(idx)
+                for key, v in own.items():
+                    filt = set(key_lists[idx]) - own_keys if v.default else {key}
+                    filter[idx] = filt if prev_filt is None else filt & prev_filt
                     add_pattern(v.value)
                 filter[idx] = prev_filt
             else:
-                for keys, msg_pattern in msg_variants.items():
-                    if all(
-                        (filt is None or key == filt) for key, filt in zip(keys, filter)
-                    ):
-                        if isinstance(el, ftl.TextElement):
-                            if msg_pattern and isinstance(msg_pattern[-1], str):
-                                msg_pattern[-1] += el.value
-                            else:
-                                msg_pattern.append(el.value)
+                for _, msg_pattern in filtered_variants():
+                    if isinstance(el, ftl.TextElement):
+                        if msg_pattern and isinstance(msg_pattern[-1], str):
+                            msg_pattern[-1] += el.value
                         else:
-                            expr = inline_expression(el)
-                            if isinstance(expr.arg, VariableRef):
-                                var_names.add(expr.arg.name)
-                            msg_pattern.append(expr)
+                            msg_pattern.append(el.value)
+                    else:
+                        expr = inline_expression(el)
+                        if isinstance(expr.arg, VariableRef):
+                            var_names.add(expr.arg.name)
+                        msg_pattern.append(expr)
 
     add_pattern(ftl_pattern)
 
@@ -273,7 +291,11 @@ def message(ftl_pattern: ftl.Pattern) -> Message:
         selectors = []
         for expr in sel_expressions:
             name = expr.arg.name if isinstance(expr.arg, VariableRef) else None
-            if name is None or expr.attributes.get("fluent-fn") is not None:
+            if (
+                name is None
+                or name in declarations
+                or expr.attributes.get("fluent-fn") is not None
+            ):
                 stem = name or "sel"
                 name = None
                 i = 0
@@ -286,7 +308,7 @@ def message(ftl_pattern: ftl.Pattern) -> Message:
         variants = {
             tuple(map(message_key, keys)): msg_pattern
             for keys, msg_pattern in msg_variants.items()
-            if msg_pattern
+            if all(key[2] or i in key_matches[keys] for i, key in enumerate(keys))
         }
         return SelectMessage(declarations, tuple(selectors), variants)
     else:
-- 
2.43.0


From 9a5da123b465dfc6ba4032337dcf27d6f7c6096c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:38 +0000
Subject: [PATCH 091/106] fix: support Fluent selectors in nested placeables

---
 python/moz/l10n/formats/fluent/parse.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/python/moz/l10n/formats/fluent/parse.py b/python/moz/l10n/formats/fluent/parse.py
index 1d76b45..6d0a7f4 100644
--- a/python/moz/l10n/formats/fluent/parse.py
+++ b/python/moz/l10n/formats/fluent/parse.py
@@ -340,12 +340,15 @@ def find_selectors(
     pattern: ftl.Pattern,
     result: list[tuple[Expression, list[ftl.InlineExpression], list[Key]]],
 ) -> list[tuple[Expression, list[ftl.InlineExpression], list[Key]]]:
+    el: (
+        ftl.TextElement | ftl.Placeable | ftl.InlineExpression | ftl.SelectExpression
+    )
     for el in pattern.elements:
-        if isinstance(el, ftl.Placeable) and isinstance(
-            el.expression, ftl.SelectExpression
-        ):
-            ftl_sel = el.expression.selector
-            keys = [variant_key(v) for v in el.expression.variants]
+        while isinstance(el, ftl.Placeable):
+            el = el.expression
+        if isinstance(el, ftl.SelectExpression):
+            ftl_sel = el.selector
+            keys = [variant_key(v) for v in el.variants]
             msg_sel = select_expression(ftl_sel, keys)
             prev = next((x for x in result if x[0] == msg_sel), None)
             if prev:
@@ -354,7 +357,7 @@ def find_selectors(
                 key_list += keys
             else:
                 result.append((msg_sel, [ftl_sel], keys))
-            for v in el.expression.variants:
+            for v in el.variants:
                 find_selectors(v.value, result)
     return result
 
-- 
2.43.0


From 4ee62fd25c884568ec0578bcbb7f4de2750d9008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:21 +0000
Subject: [PATCH 092/106] fix: recognise Android quotes after escaped
 backslashes

---
 python/moz/l10n/formats/android/parse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/formats/android/parse.py b/python/moz/l10n/formats/android/parse.py
index a768bca..5b2c38b 100644
--- a/python/moz/l10n/formats/android/parse.py
+++ b/python/moz/l10n/formats/android/parse.py
@@ -417,7 +417,7 @@ def unescape_char(c: str) -> str:
     return "\n" if c == "n" else "\t" if c == "t" else c
 
 
-double_quote = compile(r'(?<!\\)"')
+double_quote = compile(r'(?<!\\)(?:\\\\)*"')
 tag_like = compile(r"<.+>")
 
 
@@ -437,7 +437,7 @@ def parse_quotes(
                         # Let's presume that double quotes near html-ish contents are intentional.
                         break
                     # All unescaped double quotes are consumed, even unpaired ones.
-                    prev = part[pos : m.start()]
+                    prev = part[pos : m.end() - 1]
                     if prev:
                         yield prev if quoted else spaces.sub(" ", prev)
                     quoted = not quoted
-- 
2.43.0


From 78ddba4df7e7b2c8769b9da9c6cfd0029a653926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:13 +0000
Subject: [PATCH 093/106] fix: return the default pattern when a property or
 variant is missing

---
 python/moz/l10n/migrate/utils.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/python/moz/l10n/migrate/utils.py b/python/moz/l10n/migrate/utils.py
index 1c62772..56a5c3b 100644
--- a/python/moz/l10n/migrate/utils.py
+++ b/python/moz/l10n/migrate/utils.py
@@ -121,17 +121,12 @@ def get_pattern(
     Otherwise, a StopIteration exception is raised.
     """
     entry = get_entry(res, *id)
-    if entry is None:
+    if entry is None or (property is not None and property not in entry.properties):
         if default is not None:
             return default
         raise StopIteration
 
-    if property is None:
-        msg = entry.value
-    elif property in entry.properties:
-        msg = entry.properties[property]
-    else:
-        raise StopIteration
+    msg = entry.value if property is None else entry.properties[property]
 
     if isinstance(msg, PatternMessage):
         return msg.pattern
@@ -140,11 +135,12 @@ def get_pattern(
             variant = (variant,)
         if variant in msg.variants:
             return msg.variants[variant]
-        return next(
-            pattern
-            for keys, pattern in msg.variants.items()
-            if all(isinstance(key, CatchallKey) for key in keys)
-        )
+        for keys, pattern in msg.variants.items():
+            if all(isinstance(key, CatchallKey) for key in keys):
+                return pattern
+        if default is not None:
+            return default
+        raise StopIteration
 
     raise ValueError(f"Value of {id} entry is not a Message")
 
-- 
2.43.0


From 067bf0bdb62667c1d7510fc7867dbbd79b42883d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:57 +0000
Subject: [PATCH 094/106] fix: keep Android %< references to placeholders
 without an index

---
 python/moz/l10n/formats/android/parse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/formats/android/parse.py b/python/moz/l10n/formats/android/parse.py
index 5b2c38b..ff2f325 100644
--- a/python/moz/l10n/formats/android/parse.py
+++ b/python/moz/l10n/formats/android/parse.py
@@ -544,8 +544,8 @@ def parse_inline(
                             if prev_var_name:
                                 name = prev_var_name
                                 prev_idx_m = var_idx_re.search(name)
-                                prev_idx = prev_idx_m[0] + "$" if prev_idx_m else ""
-                                source = f"%{prev_idx}{source[2:]}"
+                                if prev_idx_m:
+                                    source = f"%{prev_idx_m[0]}${source[2:]}"
                             else:
                                 raise ValueError(f"Invalid {source} placeholder")
                         else:
-- 
2.43.0


From b738a0f877eb1256d355beacff4aee96af346784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:06 +0000
Subject: [PATCH 095/106] fix: use the last matching paths entry of a reference
 in all cases

---
 python/moz/l10n/paths/config.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/paths/config.py b/python/moz/l10n/paths/config.py
index 341f198..d415af3 100644
--- a/python/moz/l10n/paths/config.py
+++ b/python/moz/l10n/paths/config.py
@@ -348,7 +348,9 @@ class L10nConfigPaths:
         locales = None
         if pd:
             if locale is None:
-                target = next((tgt for tgt, lc in pd.items() if lc is None), None)
+                target = next(
+                    (tgt for tgt, lc in reversed(pd.items()) if lc is None), None
+                )
                 if target is None:
                     # Select last paths entry with at least one valid locale
                     for target, locales_ in reversed(pd.items()):
@@ -368,7 +370,6 @@ class L10nConfigPaths:
                         none_tgt = tgt
                     elif locale in lc:
                         target = tgt
-                        break
                 if target is None:
                     target = none_tgt
                 locales = {locale}
-- 
2.43.0


From 368587749b57f94654455c67cb74b0905d2719bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:08 +0000
Subject: [PATCH 096/106] fix: keep comments at the end of Android resources

---
 python/moz/l10n/formats/android/parse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/moz/l10n/formats/android/parse.py b/python/moz/l10n/formats/android/parse.py
index ff2f325..c70e551 100644
--- a/python/moz/l10n/formats/android/parse.py
+++ b/python/moz/l10n/formats/android/parse.py
@@ -195,6 +195,8 @@ def android_parse(
                 comment.clear()
         if el.tail and not el.tail.isspace():
             log.warning(f"Unexpected text in resource: {el.tail}")
+    if comment:
+        entries.append(Comment(comment_str(comment)))
     return res
 
 
-- 
2.43.0


From fca1978db7285e9228ca1b2e4fec7df49653bf9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:21 +0000
Subject: [PATCH 097/106] fix: refuse duplicate identifiers in webext

---
 python/moz/l10n/formats/webext/serialize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/moz/l10n/formats/webext/serialize.py b/python/moz/l10n/formats/webext/serialize.py
index f0d37fa..07f4004 100644
--- a/python/moz/l10n/formats/webext/serialize.py
+++ b/python/moz/l10n/formats/webext/serialize.py
@@ -65,6 +65,8 @@ def webext_serialize(
                 if len(entry.id) != 1:
                     raise ValueError(f"Unsupported entry identifier: {entry.id}")
                 name = entry.id[0]
+                if name in res:
+                    raise ValueError(f"Duplicate identifier: {name}")
                 if isinstance(entry.value, str):
                     res[name] = {"message": entry.value}
                     if not trim_comments and entry.comment:
-- 
2.43.0


From abeb6bebb695c385a72e86b277996b3addf4e871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:01 +0000
Subject: [PATCH 098/106] fix: line positions of Fluent messages

---
 python/moz/l10n/formats/fluent/parse.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/python/moz/l10n/formats/fluent/parse.py b/python/moz/l10n/formats/fluent/parse.py
index 6d0a7f4..28896b5 100644
--- a/python/moz/l10n/formats/fluent/parse.py
+++ b/python/moz/l10n/formats/fluent/parse.py
@@ -202,7 +202,7 @@ def fluent_entry(
             else ftl_entry.span
         )
         k_span = ftl_entry.id.span or ftl_entry.span
-        v_span = (ftl_entry.value.span if ftl_entry.value else None) or ftl_entry.span
+        v_span = (ftl_entry.value.span if ftl_entry.value else None) or k_span
         entry.linepos = lpm.get_linepos(
             c_span.start, k_span.start, v_span.start, v_span.end
         )
@@ -215,7 +215,7 @@ def fluent_entry(
             entry.properties[attr.id.name] = prop_msg
         if lpm and entry.linepos and attr.span:
             span = attr.value.span or attr.span
-            entry.linepos.end = span.end
+            entry.linepos.end = lpm.get_end_line(span.end)
 
     return entry
 
@@ -445,21 +445,21 @@ def literal_value(arg: ftl.NumberLiteral | ftl.StringLiteral) -> str:
 
 class LinePosMapper:
     def __init__(self, src: str) -> None:
-        self._len = len(src)
         self._newlines = [m.start() for m in finditer("\n", src)]
 
     def _get_line(self, char_idx: int) -> int:
-        # Treat the end of the string as a newline.
-        if not self._newlines and char_idx >= self._len:
-            return 2
         return next(
             (idx + 1 for idx, nl in enumerate(self._newlines) if nl > char_idx),
             len(self._newlines) + 1,
         )
 
+    def get_end_line(self, end: int) -> int:
+        """The line after that of the last character before `end`."""
+        return self._get_line(end - 1) + 1
+
     def get_linepos(self, start: int, key: int, value: int, end: int) -> LinePos:
         start_line = self._get_line(start)
         key_line = start_line if key == start else self._get_line(key)
         value_line = key_line if value == key else self._get_line(value)
-        end_line = self._get_line(end)
+        end_line = self.get_end_line(end)
         return LinePos(start_line, key_line, value_line, end_line)
-- 
2.43.0


From eb30556c3658bec691361644d3aeb9446be5a9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:20 +0000
Subject: [PATCH 099/106] fix: refuse duplicate Xcode string catalog units

---
 python/moz/l10n/formats/xliff/parse_xcode.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/python/moz/l10n/formats/xliff/parse_xcode.py b/python/moz/l10n/formats/xliff/parse_xcode.py
index 9664d0a..cd7b231 100644
--- a/python/moz/l10n/formats/xliff/parse_xcode.py
+++ b/python/moz/l10n/formats/xliff/parse_xcode.py
@@ -19,7 +19,7 @@ from collections.abc import Iterator
 from copy import deepcopy
 from dataclasses import dataclass, field
 from re import compile
-from typing import Literal, NoReturn, cast
+from typing import Any, Literal, NoReturn, cast
 
 from lxml import etree
 
@@ -336,22 +336,29 @@ def parse_xliff_xcstrings_unit(
         list(parse_xcode_pattern(pattern_src)),
     )
 
+    def add_variant(variants: dict[Any, Any], key: Any) -> None:
+        if key in variants:
+            raise ValueError(f'Duplicate <trans-unit id="{unit.attrib["id"]}">')
+        variants[key] = entry_data
+
     if len(id_parts) == 1:
+        if units[msg_id].base is not None:
+            raise ValueError(f'Duplicate <trans-unit id="{unit.attrib["id"]}">')
         units[msg_id].base = entry_data
         return
     if len(id_parts) == 2:
         dim, *key = id_parts[1].split(".")
         if dim == "plural":
             if len(key) == 1:
-                units[msg_id].plural[key[0]] = entry_data
+                add_variant(units[msg_id].plural, key[0])
                 return
         elif dim == "substitutions":
             if len(key) == 3 and key[1] == "plural":
-                units[msg_id].substitutions[(key[0], key[2])] = entry_data
+                add_variant(units[msg_id].substitutions, (key[0], key[2]))
                 return
         elif dim == "device":
             if len(key) == 1:
-                units[msg_id].device[key[0]] = entry_data
+                add_variant(units[msg_id].device, key[0])
                 return
 
     raise ValueError(
-- 
2.43.0


From 53473cb8d1ddc70d29f0020968b54af5bf56e88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:08 +0000
Subject: [PATCH 100/106] fix: keep spaces between the inline elements of XLIFF
 sources

---
 python/moz/l10n/formats/xliff/common.py    | 11 +++++++----
 python/moz/l10n/formats/xliff/serialize.py |  5 ++++-
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/python/moz/l10n/formats/xliff/common.py b/python/moz/l10n/formats/xliff/common.py
index 2fb5bdc..caf0187 100644
--- a/python/moz/l10n/formats/xliff/common.py
+++ b/python/moz/l10n/formats/xliff/common.py
@@ -27,12 +27,15 @@ xliff_ns = {
     "urn:oasis:names:tc:xliff:document:1.2",
 }
 xml_ns = "http://www.w3.org/XML/1998/namespace"
+content_elements = {"source", "seg-source", "target"}
 xcode_tool_id = Metadata("header/tool/@tool-id", "com.apple.dt.xcode")
 
 
 def element_as_metadata(
-    el: _Element, base: str, with_attrib: bool
+    el: _Element, base: str, with_attrib: bool, is_content: bool = False
 ) -> Iterator[Metadata]:
+    # In the content of messages, all whitespace is significant.
+    is_content = is_content or pretty_name(el, str(el.tag)) in content_elements
     is_empty = True
     seen: dict[str, int] = defaultdict(int)
     if with_attrib:
@@ -40,7 +43,7 @@ def element_as_metadata(
         if am:
             yield from am
             is_empty = False
-    if el.text and not el.text.isspace():
+    if el.text and (is_content or not el.text.isspace()):
         yield Metadata(base, el.text)
         is_empty = False
     for child in el:
@@ -52,11 +55,11 @@ def element_as_metadata(
             child_base = f"{base}/{name}" if base else name
             if idx > 1:
                 child_base += f"[{idx}]"
-            yield from element_as_metadata(child, child_base, True)
+            yield from element_as_metadata(child, child_base, True, is_content)
             seen[name] = idx
         else:
             raise ValueError(f"Unsupported metadata element in {base}: {el}")
-        if child.tail and not child.tail.isspace():
+        if child.tail and (is_content or not child.tail.isspace()):
             yield Metadata(base, child.tail)
         is_empty = False
     if is_empty and with_attrib:
diff --git a/python/moz/l10n/formats/xliff/serialize.py b/python/moz/l10n/formats/xliff/serialize.py
index 548546d..a47a5d7 100644
--- a/python/moz/l10n/formats/xliff/serialize.py
+++ b/python/moz/l10n/formats/xliff/serialize.py
@@ -33,7 +33,7 @@ from ...model import (
     SelectMessage,
     VariableRef,
 )
-from .common import clark_name
+from .common import clark_name, content_elements
 
 
 def xliff_serialize(
@@ -437,6 +437,9 @@ def assign_metadata(
             if not trim_comments or name != "note":
                 child = etree.SubElement(el, clark_name(el.nsmap, name))
                 assign_metadata(child, child_meta, trim_comments, child_base)
+                if name in content_elements and len(child) > 0 and child.text is None:
+                    # Any text content prevents whitespace being added by pretty-printing
+                    child.text = ""
             done.append(child_base)
 
 
-- 
2.43.0


From bc331ec49d6b27cd19db956786f1ceb24973ef44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:05 +0000
Subject: [PATCH 101/106] fix: do not name a Fluent selector as the variable of
 another selector

---
 python/moz/l10n/formats/fluent/parse.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/fluent/parse.py b/python/moz/l10n/formats/fluent/parse.py
index 28896b5..c35e8b7 100644
--- a/python/moz/l10n/formats/fluent/parse.py
+++ b/python/moz/l10n/formats/fluent/parse.py
@@ -229,7 +229,9 @@ def message(ftl_pattern: ftl.Pattern) -> Message:
     # For each variant, the indices of the selectors that match it by a non-default key.
     # Other variants are not needed, as they're equal to ones with default keys.
     key_matches: defaultdict[tuple[Key, ...], set[int]] = defaultdict(set)
-    var_names: set[str] = set()
+    var_names = {
+        expr.arg.name for expr in sel_expressions if isinstance(expr.arg, VariableRef)
+    }
     if sel_expressions:
         for sd in sel_data:
             # Selectors with the same value may have different default keys
-- 
2.43.0


From 4d4b72a899fd3c77ffafdab4e06e323c56744001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:17 +0000
Subject: [PATCH 102/106] fix: raise ValueError for malformed WebExtensions
 messages

---
 python/moz/l10n/formats/webext/parse.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/webext/parse.py b/python/moz/l10n/formats/webext/parse.py
index c261948..50e9f43 100644
--- a/python/moz/l10n/formats/webext/parse.py
+++ b/python/moz/l10n/formats/webext/parse.py
@@ -45,6 +45,15 @@ def webext_parse(source: str | bytes) -> Resource[Message]:
     The parsed resource will not include any metadata.
     """
     json: dict[str, dict[str, Any]] = json_linecomment_loads(source)[0]
+    if not isinstance(json, dict):
+        raise ValueError(f"Unexpected root value: {json}")
+    for key, msg in json.items():
+        if (
+            not isinstance(msg, dict)
+            or not isinstance(msg.get("message", None), str)
+            or not isinstance(msg.get("description", ""), str)
+        ):
+            raise ValueError(f"Unexpected value for {key}: {msg}")
     entries: list[Entry[Message] | Comment] = [
         Entry(
             (key,),
@@ -65,6 +74,11 @@ def webext_parse_message(
     Named placeholders are represented as declarations,
     with an attribute used for an example, if it's available.
     """
+    if placeholders is not None and not (
+        isinstance(placeholders, dict)
+        and all(isinstance(ph, dict) for ph in placeholders.values())
+    ):
+        raise ValueError(f"Unexpected placeholders: {placeholders}")
     ph_data = (
         {k.lower(): v for k, v in placeholders.items()}
         if placeholders is not None
@@ -90,7 +104,9 @@ def webext_parse_message(
             elif ph_key in ph_names:
                 ph_name = ph_names[ph_key]
             else:
-                decl_src = ph["content"]
+                decl_src = ph.get("content", None)
+                if not isinstance(decl_src, str):
+                    raise ValueError(f"Missing placeholder content for {ph_key}")
                 decl_arg_match = pos_arg.fullmatch(decl_src)
                 decl_value = (
                     Expression(
-- 
2.43.0


From df713419fb2ce4dd3fc65337583b01f71f815d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:11 +0000
Subject: [PATCH 103/106] fix: refuse XLIFF messages with markup that is not
 closed

---
 python/moz/l10n/formats/xliff/serialize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/moz/l10n/formats/xliff/serialize.py b/python/moz/l10n/formats/xliff/serialize.py
index a47a5d7..50a1585 100644
--- a/python/moz/l10n/formats/xliff/serialize.py
+++ b/python/moz/l10n/formats/xliff/serialize.py
@@ -499,6 +499,8 @@ def set_pattern(el: etree._Element, pattern: Pattern) -> None:
                 add_text(part_source)
             else:
                 raise ValueError(f"Unsupported expression: {part}")
+    if parent != el:
+        raise ValueError(f"Missing closing markup for {parent.tag!s}")
 
     if len(el) > 0 and el.text is None:
         # Any text content prevents whitespace being added by pretty-printing
-- 
2.43.0


From c864873eb6fdc385d79d37071dafcc1833b9768e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:13 +0000
Subject: [PATCH 104/106] fix: refuse Android messages with markup that is not
 closed

---
 python/moz/l10n/formats/android/serialize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/moz/l10n/formats/android/serialize.py b/python/moz/l10n/formats/android/serialize.py
index 526df78..389dd8b 100644
--- a/python/moz/l10n/formats/android/serialize.py
+++ b/python/moz/l10n/formats/android/serialize.py
@@ -384,6 +384,8 @@ def set_pattern(
                 parent = cast(etree._Element, parent.getparent())
             else:
                 raise ValueError(f"Improper element nesting for {part} in {parent}")
+    if parent != el:
+        raise ValueError(f"Missing closing markup for {parent.tag!s}")
     escape_pattern(el)
     if (
         allow_cdata
-- 
2.43.0


From 233302a356df69f056eca5e0a19343544456dcd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:34 +0000
Subject: [PATCH 105/106] fix: do not join XLIFF contents in metadata with the
 message value

---
 python/moz/l10n/formats/xliff/serialize.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/moz/l10n/formats/xliff/serialize.py b/python/moz/l10n/formats/xliff/serialize.py
index 50a1585..53bab32 100644
--- a/python/moz/l10n/formats/xliff/serialize.py
+++ b/python/moz/l10n/formats/xliff/serialize.py
@@ -221,6 +221,10 @@ def add_unit(
                     raise ValueError(f"Invalid entry with no source: {unit}")
                 msg_el = etree.Element("target")
                 source.addnext(msg_el)
+        if msg_el.text or any(isinstance(el.tag, str) for el in msg_el):
+            # The value replaces any contents set by the metadata
+            msg_el[:] = []
+            msg_el.text = None
         set_pattern(msg_el, pattern)
 
     if (
-- 
2.43.0


From cfa19c38ff344c7d7e7d56b92ee643c4089d8f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:29 +0000
Subject: [PATCH 106/106] fix: keep escaped spaces next to HTML tags in Android
 strings

---
 python/moz/l10n/formats/android/parse.py     | 12 +++++--
 python/moz/l10n/formats/android/serialize.py | 34 ++++++++++++--------
 2 files changed, 31 insertions(+), 15 deletions(-)

diff --git a/python/moz/l10n/formats/android/parse.py b/python/moz/l10n/formats/android/parse.py
index c70e551..b020576 100644
--- a/python/moz/l10n/formats/android/parse.py
+++ b/python/moz/l10n/formats/android/parse.py
@@ -478,6 +478,7 @@ def parse_inline(
             if acc:
                 yield acc
                 acc = ""
+            at_br = False
             yield part
         else:
             pos = 0
@@ -505,7 +506,9 @@ def parse_inline(
                     # Escaped HTML element, e.g. &lt;b>
                     # HTML elements containing internal % formatting are not wrapped as literals
                     tag = unescape(m[3])
-                    if acc.endswith(" ") and block_tag_re.match(tag):
+                    # An escaped space is kept
+                    at_space = start > pos and part[start - 1] == " "
+                    if at_space and block_tag_re.match(tag):
                         yield acc[:-1] + "\n"
                         acc = ""
                     elif acc:
@@ -557,7 +560,12 @@ def parse_inline(
                             VariableRef(name), func, attributes={"source": source}
                         )
                 pos = m.end()
-            acc += part[pos:]
+            if pos < len(part):
+                if at_br and part[pos] == " ":
+                    acc += "\n" + part[pos + 1 :]
+                else:
+                    acc += part[pos:]
+                at_br = False
     if acc:
         yield acc
 
diff --git a/python/moz/l10n/formats/android/serialize.py b/python/moz/l10n/formats/android/serialize.py
index 389dd8b..1ea1031 100644
--- a/python/moz/l10n/formats/android/serialize.py
+++ b/python/moz/l10n/formats/android/serialize.py
@@ -281,7 +281,7 @@ def set_pattern_message(
     el: etree._Element, msg: Message | str, allow_cdata: bool
 ) -> None:
     if isinstance(msg, str):
-        el.text = escape_part(msg)
+        el.text = escape_html_spaces(escape_part(msg))
         escape_pattern(el)
         if allow_cdata and tag_like.search(el.text) is not None:
             el.text = etree.CDATA(el.text)
@@ -308,16 +308,20 @@ def set_pattern(
 
     parent = el
     node = None
+
+    def add_text(text: str) -> None:
+        if node is None:
+            parent.text = escape_html_spaces((parent.text or "") + text)
+        else:
+            node.tail = escape_html_spaces((node.tail or "") + text)
+
     for part in pattern:
         if isinstance(part, str):
             esc = escape_part(part)
             prev = parent.text if node is None else node.tail
             if prev and prev.endswith(" ") and esc.startswith(" "):
                 esc = escape_char(" ") + esc[1:]
-            if node is None:
-                parent.text = parent.text + esc if parent.text else esc
-            else:
-                node.tail = node.tail + esc if node.tail else esc
+            add_text(esc)
         elif isinstance(part, Expression):
             ent_name = entity_name(part)
             if part.attributes.get("translate", None) == "no":
@@ -343,10 +347,7 @@ def set_pattern(
                 source = part.attributes["source"]
                 if not isinstance(source, str):
                     raise ValueError(f"Unsupported expression source: {part}")
-                if node is None:
-                    parent.text = parent.text + source if parent.text else source
-                else:
-                    node.tail = node.tail + source if node.tail else source
+                add_text(source)
             else:
                 source = None
                 if isinstance(part.arg, str):
@@ -354,10 +355,7 @@ def set_pattern(
                 elif isinstance(part.arg, VariableRef):
                     source = part.arg.name
                 if source is not None:
-                    if node is None:
-                        parent.text = parent.text + source if parent.text else source
-                    else:
-                        node.tail = node.tail + source if node.tail else source
+                    add_text(source)
                 else:
                     raise ValueError(f"Unsupported expression: {part}")
         elif any(isinstance(value, VariableRef) for value in part.options.values()):
@@ -424,6 +422,16 @@ def escape_part(src: str) -> str:
     return control_chars.sub(lambda m: escape_char(m.group()), res)
 
 
+# Spaces that are parsed as newlines
+html_space = compile(
+    r"(?<=<[bh]r>) |(?<=<[bh]r/>) | (?=<(?:div|h[123456r]|p|d[dt]|li|/?[dou]l)\b[^%>]*>)"
+)
+
+
+def escape_html_spaces(src: str) -> str:
+    return html_space.sub(lambda m: escape_char(m.group()), src)
+
+
 def escape_pattern(el: etree._Element) -> None:
     if not el.text:
         # Ensures that an end tag is always used
-- 
2.43.0

