From 20eb36f3c50375121ed2baf017b33cb3b58c983a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:29 +0000
Subject: [PATCH 001/141] fix: ignore the order of sections sharing an id in
 l10n_equal()

---
 python/moz/l10n/resource/l10n_equal.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/resource/l10n_equal.py b/python/moz/l10n/resource/l10n_equal.py
index 0a57878..0257c7d 100644
--- a/python/moz/l10n/resource/l10n_equal.py
+++ b/python/moz/l10n/resource/l10n_equal.py
@@ -42,7 +42,15 @@ def l10n_sections(resource: Resource[Any]) -> list[tuple[Any, ...]]:
         for section in resource.sections
         if any(isinstance(entry, Entry) for entry in section.entries)
     ]
-    ls.sort(key=lambda s: s[0])
+    # Sections may share an id, so more is needed to ignore their order.
+    ls.sort(
+        key=lambda s: (
+            s[0],
+            s[1],
+            sorted((key, sorted(values)) for key, values in s[2].items()),
+            [entry[0] for entry in s[3]],
+        )
+    )
     nonempty_idx = next(
         (idx for idx, (id, comment, meta, _) in enumerate(ls) if id or comment or meta),
         len(ls),
-- 
2.43.0


From 498caf7ca458f92851eb2534fecc5b400e7efc78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:44 +0000
Subject: [PATCH 002/141] fix: reject malformed b+ qualifiers in
 parse_android_locale()

---
 python/moz/l10n/paths/android_locale.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/moz/l10n/paths/android_locale.py b/python/moz/l10n/paths/android_locale.py
index dcf8ebf..0ff6c89 100644
--- a/python/moz/l10n/paths/android_locale.py
+++ b/python/moz/l10n/paths/android_locale.py
@@ -48,6 +48,8 @@ def parse_android_locale(alocale: str) -> str | None:
         `iw` -> `he`, `en-rGB` -> `en-GB`, `b+sr+Latn` -> `sr-Latn`
     """
     if alocale.startswith("b+"):
+        if fullmatch(r"b(?:\+[A-Za-z0-9]{1,8})+", alocale) is None:
+            return None  # Not a valid Android locale
         lc, *rest = alocale[2:].split("+")
     else:
         m = fullmatch(r"([a-z]{2,3})(?:-r([A-Z]{2}))?", alocale)
-- 
2.43.0


From 779aeae80b02ddcf76969db46c5a43d26191d46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:36 +0000
Subject: [PATCH 003/141] fix: keep the declarations of an empty pattern in
 entry_to_json()

---
 python/moz/l10n/message/to_json.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/moz/l10n/message/to_json.py b/python/moz/l10n/message/to_json.py
index 257de8a..8764f21 100644
--- a/python/moz/l10n/message/to_json.py
+++ b/python/moz/l10n/message/to_json.py
@@ -45,6 +45,7 @@ def entry_to_json(entry: Entry[Message]) -> tuple[str, dict[str, Any]]:
         not entry.properties
         or not isinstance(entry.value, PatternMessage)
         or entry.value.pattern
+        or entry.value.declarations
     ):
         json["="] = message_to_json(entry.value)
     if entry.properties:
-- 
2.43.0


From 0090fd2c9a69af14110a8d0e8ddd2d719e525011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:36 +0000
Subject: [PATCH 004/141] fix: report all malformed JSON as MF2ValidationError
 in mf2_from_json()

---
 python/moz/l10n/formats/mf2/from_json.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/python/moz/l10n/formats/mf2/from_json.py b/python/moz/l10n/formats/mf2/from_json.py
index 654484b..e0ab4cd 100644
--- a/python/moz/l10n/formats/mf2/from_json.py
+++ b/python/moz/l10n/formats/mf2/from_json.py
@@ -42,7 +42,7 @@ def mf2_from_json(json: dict[str, Any]) -> Message:
             raise MF2ValidationError(f"Invalid JSON message: {json}")
 
         declarations: dict[str, Expression] = {}
-        for decl in json["declarations"]:
+        for decl in _list(json, "declarations"):
             decl_type = decl["type"]
             if decl_type not in {"input", "local"}:
                 raise MF2ValidationError(f"Invalid JSON declaration type: {decl}")
@@ -59,17 +59,19 @@ def mf2_from_json(json: dict[str, Any]) -> Message:
             declarations[decl_name] = decl_expr
 
         if msg_type == "message":
-            pattern = _pattern(json["pattern"])
+            pattern = _pattern(_list(json, "pattern"))
             return PatternMessage(pattern, declarations)
 
         assert msg_type == "select"
-        selectors = tuple(_variable(sel) for sel in json["selectors"])
+        selectors = tuple(_variable(sel) for sel in _list(json, "selectors"))
         variants = {
-            tuple(_key(key) for key in vari["keys"]): _pattern(vari["value"])
-            for vari in json["variants"]
+            tuple(_key(key) for key in _list(vari, "keys")): _pattern(
+                _list(vari, "value")
+            )
+            for vari in _list(json, "variants")
         }
         return SelectMessage(declarations, selectors, variants)
-    except (IndexError, KeyError, TypeError) as err:
+    except (AttributeError, IndexError, KeyError, TypeError) as err:
         raise MF2ValidationError(f"Invalid JSON: {err!r}")
 
 
@@ -89,7 +91,7 @@ def _expression(json: dict[str, Any]) -> Expression:
         raise MF2ValidationError(f"Invalid JSON expression type: {json}")
     arg = _value(json["arg"]) if "arg" in json else None
     json_func = json.get("function", None)
-    if json_func:
+    if json_func is not None:
         if json_func["type"] != "function":
             raise MF2ValidationError(f"Invalid JSON function type: {json_func}")
         function = _string(json_func, "name")
@@ -154,6 +156,14 @@ def _variable(json: dict[str, Any]) -> VariableRef:
     return VariableRef(_string(json, "name"))
 
 
+def _list(obj: dict[str, Any], key: str) -> list[Any]:
+    value = obj[key]
+    if isinstance(value, (list, tuple)):
+        return list(value)
+    else:
+        raise MF2ValidationError(f"Expected an array value for {key} in {obj}")
+
+
 def _string(obj: dict[str, Any], key: str | None = None) -> str:
     value = obj if key is None else obj.get(key, None)
     if isinstance(value, str):
-- 
2.43.0


From cff1ff732b58586ff8cf10a14740609ef66ac376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:24 +0000
Subject: [PATCH 005/141] fix: decode escapes in properties_parse_message()
 with printf_placeholders

---
 python/moz/l10n/formats/properties/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/properties/parse.py b/python/moz/l10n/formats/properties/parse.py
index 10f5881..13efe71 100644
--- a/python/moz/l10n/formats/properties/parse.py
+++ b/python/moz/l10n/formats/properties/parse.py
@@ -151,7 +151,7 @@ def properties_parse_message(
     if kind != LineKind.VALUE or not all(kind == LineKind.EMPTY for kind, _, _ in rest):
         raise ValueError("Source is not a .properties value")
     if printf_placeholders:
-        return PatternMessage(list(parse_printf_pattern(source)))
+        return PatternMessage(list(parse_printf_pattern(value)))
     return PatternMessage([value])
 
 
-- 
2.43.0


From e7d1d34213f328e96ed2b101a6ad03de80c7490d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:56 +0000
Subject: [PATCH 006/141] fix: support line continuations in .properties keys

---
 python/moz/l10n/formats/properties/parse.py | 29 ++++++++++++---------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/python/moz/l10n/formats/properties/parse.py b/python/moz/l10n/formats/properties/parse.py
index 13efe71..0350108 100644
--- a/python/moz/l10n/formats/properties/parse.py
+++ b/python/moz/l10n/formats/properties/parse.py
@@ -30,6 +30,8 @@ class LineKind(Enum):
     VALUE = 3
 
 
+key_re = compile(r"(?:[^\\\n\r\t\f =:]|\\(?:[^\n\r]|\Z))*")
+line_continuation_re = compile(r"\\(?:\r\n?|\n)[\f\t ]*")
 esc_re = compile("\\\\(u[0-9A-Fa-f]{1,4}|.)")
 
 
@@ -235,23 +237,26 @@ class PropertiesParser:
             return LineKind.COMMENT, lp, self.source[start:end]
 
         # key
-        start = self.pos
-        at_escape = False
-        idx = -1
-        for idx, ch in enumerate(self.source[start:]):
-            if at_escape:
-                at_escape = False
-            elif ch == "\\":
-                at_escape = True
-            elif ch in {"\n", "\r", "\t", "\f", " ", "=", ":"}:
-                idx -= 1
+        key = ""
+        while m := key_re.match(self.source, self.pos):
+            key += esc_re.sub(esc_parse, m.group())
+            self.pos = m.end()
+            if not self.line_continuation():
                 break
-        end = self.pos = start + idx + 1
         self.ws()
+        while self.line_continuation():
+            pass
         if self.source.startswith(("=", ":"), self.pos):
             self.pos += 1
         self.at_value = True
-        return LineKind.KEY, lp, esc_re.sub(esc_parse, self.source[start:end])
+        return LineKind.KEY, lp, key
+
+    def line_continuation(self) -> bool:
+        m = line_continuation_re.match(self.source, self.pos)
+        if m:
+            self.pos = m.end()
+            self.line_pos += 1
+        return m is not None
 
     def nl(self) -> bool:
         if self.source.startswith("\n", self.pos):
-- 
2.43.0


From 8c294276fb9381fa1caab3a2163188932cad03a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:57 +0000
Subject: [PATCH 007/141] fix: count the last line of a .properties value at
 end of input

---
 python/moz/l10n/formats/properties/parse.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/properties/parse.py b/python/moz/l10n/formats/properties/parse.py
index 0350108..e4cfe99 100644
--- a/python/moz/l10n/formats/properties/parse.py
+++ b/python/moz/l10n/formats/properties/parse.py
@@ -214,7 +214,9 @@ class PropertiesParser:
                         at_escape = True
             self.pos = end = start + idx + 1
             lines.append(self.source[line_start:end])
-            self.nl()
+            if not self.nl() and line_start < len(self.source):
+                # Value ends at end of input
+                self.line_pos += 1
             value = "".join(
                 esc_re.sub(esc_parse, line.lstrip("\f\t ")) for line in lines
             )
-- 
2.43.0


From 0ecee9004009b7d8343bd585f648a2a5ed0b735d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:58 +0000
Subject: [PATCH 008/141] fix: do not count a detached empty comment to a
 .properties entry

---
 python/moz/l10n/formats/properties/parse.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/python/moz/l10n/formats/properties/parse.py b/python/moz/l10n/formats/properties/parse.py
index e4cfe99..447c4e7 100644
--- a/python/moz/l10n/formats/properties/parse.py
+++ b/python/moz/l10n/formats/properties/parse.py
@@ -124,12 +124,15 @@ def properties_parse(
                     comment = value
                     start_line = line
                     comment_linepos = LinePos(line, line, line, line + 1)
-            elif comment:
-                # empty line or EOF after a comment
-                if entries or resource.comment:
-                    entries.append(Comment(comment=comment, linepos=comment_linepos))
-                else:
-                    resource.comment = comment
+            else:
+                # empty line or EOF
+                if comment:
+                    if entries or resource.comment:
+                        entries.append(
+                            Comment(comment=comment, linepos=comment_linepos)
+                        )
+                    else:
+                        resource.comment = comment
                 comment = ""
                 comment_linepos = None
                 start_line = 0
-- 
2.43.0


From 40ef7883f6085360e899bc6f6aa2c86403d2d33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:59 +0000
Subject: [PATCH 009/141] fix: comment out every line of a .properties comment
 containing carriage returns

---
 python/moz/l10n/formats/properties/serialize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/properties/serialize.py b/python/moz/l10n/formats/properties/serialize.py
index 83a2075..e00bef1 100644
--- a/python/moz/l10n/formats/properties/serialize.py
+++ b/python/moz/l10n/formats/properties/serialize.py
@@ -22,6 +22,7 @@ from ...model import Entry, Message, PatternMessage, Resource
 
 control_chars = compile(r"[\x00-\x19\x5C\x7F-\x9F]")
 not_ascii_printable_chars = compile(r"[^\x20-\x5B\x5D-\x7E]")
+comment_line_re = compile(r"\r\n?|\n")
 special_key_trans = str.maketrans({" ": "\\ ", ":": "\\:", "=": "\\="})
 
 
@@ -89,7 +90,7 @@ def properties_serialize(
         if comment:
             if standalone and not at_empty_line:
                 yield "\n"
-            for line in comment.strip("\n").split("\n"):
+            for line in comment_line_re.split(comment.strip("\n")):
                 if not line or line.isspace():
                     yield "#\n"
                 else:
-- 
2.43.0


From afba5027cf0cc4f800b1ebe4377cc422a50af29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:00 +0000
Subject: [PATCH 010/141] fix: escape leading # and ! in .properties keys

---
 python/moz/l10n/formats/properties/serialize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/moz/l10n/formats/properties/serialize.py b/python/moz/l10n/formats/properties/serialize.py
index e00bef1..ea9fb57 100644
--- a/python/moz/l10n/formats/properties/serialize.py
+++ b/python/moz/l10n/formats/properties/serialize.py
@@ -110,6 +110,8 @@ def properties_serialize(
                 key = id_prefix + ".".join(entry.id)
                 key = escape_chars(key, ensure_ascii)
                 key = key.translate(special_key_trans)
+                if key.startswith(("#", "!")):
+                    key = "\\" + key
 
                 value: str
                 msg = entry.value
-- 
2.43.0


From 303642c336566c009582929675b8712d84becd04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:01 +0000
Subject: [PATCH 011/141] fix: represent characters beyond the BMP as escaped
 surrogate pairs in .properties

---
 python/moz/l10n/formats/properties/parse.py     | 10 ++++++++--
 python/moz/l10n/formats/properties/serialize.py |  7 ++++++-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/python/moz/l10n/formats/properties/parse.py b/python/moz/l10n/formats/properties/parse.py
index 447c4e7..7c6d816 100644
--- a/python/moz/l10n/formats/properties/parse.py
+++ b/python/moz/l10n/formats/properties/parse.py
@@ -32,12 +32,18 @@ class LineKind(Enum):
 
 key_re = compile(r"(?:[^\\\n\r\t\f =:]|\\(?:[^\n\r]|\Z))*")
 line_continuation_re = compile(r"\\(?:\r\n?|\n)[\f\t ]*")
-esc_re = compile("\\\\(u[0-9A-Fa-f]{1,4}|.)")
+esc_re = compile(
+    r"\\(u[Dd][89ABab][0-9A-Fa-f]{2}\\u[Dd][C-Fc-f][0-9A-Fa-f]{2}|u[0-9A-Fa-f]{1,4}|.)"
+)
 
 
 def esc_parse(match: Match[str]) -> str:
     esc = match.group(1)
-    if len(esc) > 1 and esc[0] == "u":
+    if len(esc) > 5:
+        # Surrogate pair
+        hi, lo = (int(x, 16) for x in esc[1:].split("\\u"))
+        return chr(0x10000 + ((hi - 0xD800) << 10) + (lo - 0xDC00))
+    elif len(esc) > 1 and esc[0] == "u":
         n = int(esc[1:], 16)
         return chr(n)
     elif esc == "t":
diff --git a/python/moz/l10n/formats/properties/serialize.py b/python/moz/l10n/formats/properties/serialize.py
index ea9fb57..e778603 100644
--- a/python/moz/l10n/formats/properties/serialize.py
+++ b/python/moz/l10n/formats/properties/serialize.py
@@ -38,7 +38,12 @@ def encode_char(m: Match[str]) -> str:
         return r"\f"
     elif ch == "\r":
         return r"\r"
-    return f"\\u{ord(ch):04x}"
+    n = ord(ch)
+    if n > 0xFFFF:
+        # As a surrogate pair
+        n -= 0x10000
+        return f"\\u{0xD800 + (n >> 10):04x}\\u{0xDC00 + (n & 0x3FF):04x}"
+    return f"\\u{n:04x}"
 
 
 def escape_chars(value: str, ensure_ascii: bool) -> str:
-- 
2.43.0


From 32d0eaae6c3793e147eda63b0e81a62f94832410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:11 +0000
Subject: [PATCH 012/141] fix: count all lines of a continued .properties key

---
 python/moz/l10n/formats/properties/parse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/formats/properties/parse.py b/python/moz/l10n/formats/properties/parse.py
index 7c6d816..2809035 100644
--- a/python/moz/l10n/formats/properties/parse.py
+++ b/python/moz/l10n/formats/properties/parse.py
@@ -114,7 +114,7 @@ def properties_parse(
                     id=(value,),
                     value=PatternMessage([]),
                     comment=comment,
-                    linepos=LinePos(start_line or line, line, line, line + 1),
+                    linepos=LinePos(start_line or line, line, line, parser.line_pos + 1),
                 )
                 prev_linepos = entry.linepos
                 entries.append(entry)
@@ -223,7 +223,7 @@ class PropertiesParser:
                         at_escape = True
             self.pos = end = start + idx + 1
             lines.append(self.source[line_start:end])
-            if not self.nl() and line_start < len(self.source):
+            if not self.nl():
                 # Value ends at end of input
                 self.line_pos += 1
             value = "".join(
-- 
2.43.0


From b7a8942f93fc4f69a086cef4e17c583f2dc278ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:00 +0000
Subject: [PATCH 013/141] fix: parse consecutive includes in DTD

---
 python/moz/l10n/formats/dtd/parse.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/formats/dtd/parse.py b/python/moz/l10n/formats/dtd/parse.py
index fb6aae3..81ca581 100644
--- a/python/moz/l10n/formats/dtd/parse.py
+++ b/python/moz/l10n/formats/dtd/parse.py
@@ -67,9 +67,12 @@ def dtd_parse(source: str | bytes) -> Resource[Message]:
     resource = Resource(Format.dtd, [Section((), entries)])
 
     def handle_other_content(entry: str) -> None:
-        if sm := re_system_include.fullmatch(entry):
+        pos = 0
+        while sm := re_system_include.match(entry, pos):
             resource.meta.append(Metadata(sm[1], sm[2][1:-1]))
-        elif entry and not entry.isspace():
+            pos = sm.end(0)
+        rest = entry[pos:]
+        if rest and not rest.isspace():
             raise ValueError(f"Unexpected content in DTD: {entry}")
 
     pos = 0
-- 
2.43.0


From 0e0a4f1dba2292a1a5276aa33bdf4cd75ab7d7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:01 +0000
Subject: [PATCH 014/141] fix: keep the last comment of a DTD standalone if an
 empty line follows it

---
 python/moz/l10n/formats/dtd/parse.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/python/moz/l10n/formats/dtd/parse.py b/python/moz/l10n/formats/dtd/parse.py
index 81ca581..4d67e74 100644
--- a/python/moz/l10n/formats/dtd/parse.py
+++ b/python/moz/l10n/formats/dtd/parse.py
@@ -66,6 +66,8 @@ def dtd_parse(source: str | bytes) -> Resource[Message]:
     entries: list[Entry[Message] | Comment] = []
     resource = Resource(Format.dtd, [Section((), entries)])
 
+    comment: str = ""
+
     def handle_other_content(entry: str) -> None:
         pos = 0
         while sm := re_system_include.match(entry, pos):
@@ -74,10 +76,17 @@ def dtd_parse(source: str | bytes) -> Resource[Message]:
         rest = entry[pos:]
         if rest and not rest.isspace():
             raise ValueError(f"Unexpected content in DTD: {entry}")
+        nonlocal comment
+        if comment and entry.count("\n") > 1:
+            # An empty line detaches a comment from what follows it
+            if entries or resource.comment:
+                entries.append(Comment(comment))
+            else:
+                resource.comment = comment
+            comment = ""
 
     pos = 0
     at_newline = True
-    comment: str = ""
     if not isinstance(source, str):
         source = str(source, "utf8")
     for match in re_comment.finditer(source):
@@ -86,14 +95,7 @@ def dtd_parse(source: str | bytes) -> Resource[Message]:
         for entry in dtd_iter(source, pos, endpos=cstart):
             if isinstance(entry, str):
                 handle_other_content(entry)
-                lines = entry.split("\n")
-                if comment and len(lines) > 2:
-                    if entries or resource.comment:
-                        entries.append(Comment(comment))
-                    else:
-                        resource.comment = comment
-                    comment = ""
-                at_newline = len(lines) > 1
+                at_newline = "\n" in entry
             else:
                 if comment:
                     entry.comment = comment
-- 
2.43.0


From 1d35998fe86c5486cb64c3a9ef0d2ba00343a1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:02 +0000
Subject: [PATCH 015/141] fix: parse DTD entity values containing comment
 delimiters

---
 python/moz/l10n/formats/dtd/parse.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/formats/dtd/parse.py b/python/moz/l10n/formats/dtd/parse.py
index 4d67e74..3ae6f6b 100644
--- a/python/moz/l10n/formats/dtd/parse.py
+++ b/python/moz/l10n/formats/dtd/parse.py
@@ -51,6 +51,9 @@ re_system_include = compile(
 )
 
 re_comment = compile(r"\<!\s*--(.*?)--\s*\>", MULTILINE | DOTALL)
+re_entity_or_comment = compile(
+    f"{re_entity.pattern}|{re_comment.pattern}", DOTALL | UNICODE
+)
 
 
 def dtd_parse(source: str | bytes) -> Resource[Message]:
@@ -89,7 +92,10 @@ def dtd_parse(source: str | bytes) -> Resource[Message]:
     at_newline = True
     if not isinstance(source, str):
         source = str(source, "utf8")
-    for match in re_comment.finditer(source):
+    for match in re_entity_or_comment.finditer(source):
+        if match.group(3) is None:
+            # An entity, which may contain comment delimiters in its value
+            continue
         cstart = match.start(0)
         has_prev_entries = False
         for entry in dtd_iter(source, pos, endpos=cstart):
@@ -102,7 +108,7 @@ def dtd_parse(source: str | bytes) -> Resource[Message]:
                     comment = ""
                 entries.append(entry)
                 has_prev_entries = True
-        nc = match.group(1).strip().replace("\r\n", "\n")
+        nc = match.group(3).strip().replace("\r\n", "\n")
         comment = f"{comment}\n{nc}" if comment else nc
         if comment:
             if not at_newline and has_prev_entries:
-- 
2.43.0


From 4ddc16a0b484e0128a5862b0246cbb8cf4a343d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:34 +0000
Subject: [PATCH 016/141] fix: refuse DTD includes with an invalid name

---
 python/moz/l10n/formats/dtd/serialize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/moz/l10n/formats/dtd/serialize.py b/python/moz/l10n/formats/dtd/serialize.py
index 85dd14e..d437e44 100644
--- a/python/moz/l10n/formats/dtd/serialize.py
+++ b/python/moz/l10n/formats/dtd/serialize.py
@@ -84,6 +84,8 @@ def dtd_serialize(
 
     yield from comment(resource.comment, None, True)
     for meta in resource.meta:
+        if not re_name.fullmatch(meta.key):
+            raise ValueError(f"Unsupported DTD name: {meta.key}")
         yield f"<!ENTITY % {meta.key} SYSTEM {quote(meta.value)}>\n%{meta.key};\n"
     for section in resource.sections:
         yield from comment(section.comment, section.meta, True)
-- 
2.43.0


From af8ca396f2cf45e8e15dbbfdb64c692b955bd46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:26 +0000
Subject: [PATCH 017/141] fix: consider only CR and LF as line terminators in
 .inc files

---
 python/moz/l10n/formats/inc/parse.py     | 3 ++-
 python/moz/l10n/formats/inc/serialize.py | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/python/moz/l10n/formats/inc/parse.py b/python/moz/l10n/formats/inc/parse.py
index 0c3c8b1..85803d6 100644
--- a/python/moz/l10n/formats/inc/parse.py
+++ b/python/moz/l10n/formats/inc/parse.py
@@ -19,6 +19,7 @@ from re import compile
 from ...model import Comment, Entry, Message, PatternMessage, Resource, Section
 from .. import Format
 
+re_newline = compile(r"\r\n?|\n")
 re_define = compile(r"#define[ \t]+(\w+)(?:[ \t](.*))?")
 
 
@@ -34,7 +35,7 @@ def inc_parse(source: str | bytes) -> Resource[Message]:
     comment: str = ""
     if not isinstance(source, str):
         source = str(source, "utf8")
-    for line in source.splitlines():
+    for line in re_newline.split(source):
         if not line or line.isspace():
             if comment:
                 entries.append(Comment(comment))
diff --git a/python/moz/l10n/formats/inc/serialize.py b/python/moz/l10n/formats/inc/serialize.py
index 2d12c58..a2fa92b 100644
--- a/python/moz/l10n/formats/inc/serialize.py
+++ b/python/moz/l10n/formats/inc/serialize.py
@@ -18,6 +18,7 @@ from collections.abc import Iterator
 from typing import Any
 
 from ...model import Entry, Message, PatternMessage, Resource
+from .parse import re_newline
 
 
 def inc_serialize(
@@ -40,7 +41,7 @@ def inc_serialize(
         if meta:
             raise ValueError("Metadata is not supported")
         if comment:
-            for line in comment.strip("\n").split("\n"):
+            for line in re_newline.split(comment.strip("\n")):
                 if line.startswith("#"):
                     if not trim_comments or not line.startswith("# "):
                         yield f"{line}\n"
@@ -69,7 +70,7 @@ def inc_serialize(
                     value = "".join(msg.pattern)  # type: ignore[arg-type]
                 else:
                     raise ValueError(f"Unsupported message for {entry.id[0]}: {msg}")
-                value = value.replace("\n", " ")
+                value = re_newline.sub(" ", value)
                 yield f"#define {entry.id[0]} {value}\n"
                 yield "\n"
             else:
-- 
2.43.0


From 178c59f3920230b94082e2d055780309ff386419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:27 +0000
Subject: [PATCH 018/141] fix: parse empty comment lines in .inc files

---
 python/moz/l10n/formats/inc/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/inc/parse.py b/python/moz/l10n/formats/inc/parse.py
index 85803d6..cfa2a76 100644
--- a/python/moz/l10n/formats/inc/parse.py
+++ b/python/moz/l10n/formats/inc/parse.py
@@ -40,7 +40,7 @@ def inc_parse(source: str | bytes) -> Resource[Message]:
             if comment:
                 entries.append(Comment(comment))
                 comment = ""
-        elif line.startswith("# "):
+        elif line == "#" or line.startswith("# "):
             nc = line[2:].lstrip()
             if nc.startswith("#"):
                 nc = line
-- 
2.43.0


From 149620bc1d964cc957a1843cf1d234d1459677a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:28 +0000
Subject: [PATCH 019/141] fix: do not serialize .inc comments as definitions

---
 python/moz/l10n/formats/inc/serialize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/formats/inc/serialize.py b/python/moz/l10n/formats/inc/serialize.py
index a2fa92b..b747169 100644
--- a/python/moz/l10n/formats/inc/serialize.py
+++ b/python/moz/l10n/formats/inc/serialize.py
@@ -18,7 +18,7 @@ from collections.abc import Iterator
 from typing import Any
 
 from ...model import Entry, Message, PatternMessage, Resource
-from .parse import re_newline
+from .parse import re_define, re_newline
 
 
 def inc_serialize(
@@ -42,7 +42,7 @@ def inc_serialize(
             raise ValueError("Metadata is not supported")
         if comment:
             for line in re_newline.split(comment.strip("\n")):
-                if line.startswith("#"):
+                if line.startswith("#") and not re_define.fullmatch(line):
                     if not trim_comments or not line.startswith("# "):
                         yield f"{line}\n"
                 elif not trim_comments:
-- 
2.43.0


From 35617e9fdf911d6f3f40f877b953e74d7e0bb14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:29 +0000
Subject: [PATCH 020/141] fix: refuse identifiers not supported by .inc files

---
 python/moz/l10n/formats/inc/serialize.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/inc/serialize.py b/python/moz/l10n/formats/inc/serialize.py
index b747169..dc6b961 100644
--- a/python/moz/l10n/formats/inc/serialize.py
+++ b/python/moz/l10n/formats/inc/serialize.py
@@ -15,11 +15,14 @@
 from __future__ import annotations
 
 from collections.abc import Iterator
+from re import compile
 from typing import Any
 
 from ...model import Entry, Message, PatternMessage, Resource
 from .parse import re_define, re_newline
 
+re_name = compile(r"\w+")
+
 
 def inc_serialize(
     resource: Resource[str] | Resource[Message],
@@ -59,7 +62,7 @@ def inc_serialize(
         for entry in section.entries:
             if isinstance(entry, Entry):
                 yield from comment(entry.comment, entry.meta, False)
-                if len(entry.id) != 1:
+                if len(entry.id) != 1 or not re_name.fullmatch(entry.id[0]):
                     raise ValueError(f"Unsupported identifier: {entry.id}")
                 msg = entry.value
                 if isinstance(msg, str):
-- 
2.43.0


From 42a8f14fc6b7ed064a024ae95d99a8f3bacdfa50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:30 +0000
Subject: [PATCH 021/141] fix: parse INI options with a name starting with rem

---
 python/moz/l10n/formats/ini/parse.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/ini/parse.py b/python/moz/l10n/formats/ini/parse.py
index 7a96ac8..9a9aae4 100644
--- a/python/moz/l10n/formats/ini/parse.py
+++ b/python/moz/l10n/formats/ini/parse.py
@@ -16,6 +16,7 @@ from __future__ import annotations
 
 from collections.abc import Generator
 from io import StringIO
+from re import compile
 from typing import TextIO
 
 from iniparse import ini  # type: ignore[import-untyped]
@@ -24,6 +25,21 @@ from ...model import Comment, Entry, Message, PatternMessage, Resource, Section
 from .. import Format
 
 
+class CommentLine(ini.CommentLine):  # type: ignore[misc]
+    # Do not take an option such as `remember=...` for a `rem` comment.
+    regex = compile(r"^(?P<csep>[;#]|[rR][eE][mM](?=\s|$))(?P<comment>.*)$")
+
+
+class Config(ini.INIConfig):  # type: ignore[misc]
+    _line_types = [
+        ini.EmptyLine,
+        CommentLine,
+        ini.SectionLine,
+        ini.OptionLine,
+        ini.ContinuationLine,
+    ]
+
+
 def ini_parse(source: TextIO | str | bytes) -> Resource[Message]:
     """
     Parse an .ini file into a message resource.
@@ -36,7 +52,7 @@ def ini_parse(source: TextIO | str | bytes) -> Resource[Message]:
         file = StringIO(str(source, "utf8"))
     else:
         file = source
-    cfg = ini.INIConfig(file, optionxformvalue=None)
+    cfg = Config(file, optionxformvalue=None)
 
     resource = Resource[Message](Format.ini, [])
     section: Section[Message] | None = None
-- 
2.43.0


From 1a020dc7efbf1ee945412122a7808964dc1bfb05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:31 +0000
Subject: [PATCH 022/141] fix: refuse INI option names and values that would
 parse as comments

---
 python/moz/l10n/formats/ini/serialize.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/formats/ini/serialize.py b/python/moz/l10n/formats/ini/serialize.py
index 6be53ae..678a52f 100644
--- a/python/moz/l10n/formats/ini/serialize.py
+++ b/python/moz/l10n/formats/ini/serialize.py
@@ -19,6 +19,7 @@ from re import search
 from typing import Any
 
 from ...model import Entry, Message, PatternMessage, Resource
+from .parse import CommentLine
 
 
 def ini_serialize(
@@ -81,8 +82,10 @@ def ini_serialize(
                 else:
                     raise ValueError(f"Unsupported message for {entry.id}: {msg}")
                 lines = value.rstrip().splitlines()
+                if lines and search(r"^[^;]*\s;", lines[0].lstrip()):
+                    raise ValueError(f"Unsupported value for {entry.id}: {value}")
                 yield (
-                    f"{id_str(entry.id)}={lines.pop(0) if lines else ''}".rstrip()
+                    f"{option_name(entry.id)}={lines.pop(0) if lines else ''}".rstrip()
                     + "\n"
                 )
                 for line in lines:
@@ -95,6 +98,13 @@ def ini_serialize(
 
 def id_str(id: tuple[str, ...]) -> str:
     name = ".".join(id)
-    if search(r"^\s|[\n:=[\]]|\s$", name):
+    if not name or search(r"^\s|[\n:=[\]]|\s$", name):
         raise ValueError(f"Unsupported character in identifier: {id}")
     return name
+
+
+def option_name(id: tuple[str, ...]) -> str:
+    name = id_str(id)
+    if CommentLine.regex.match(name):
+        raise ValueError(f"Unsupported option name: {id}")
+    return name
-- 
2.43.0


From 93a3572e47e740ed48a0bd80ad838b384f11a9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:23 +0000
Subject: [PATCH 023/141] fix: keep gettext references without a line number as
 they are

---
 python/moz/l10n/formats/gettext/parse.py     | 2 +-
 python/moz/l10n/formats/gettext/serialize.py | 5 +----
 2 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/python/moz/l10n/formats/gettext/parse.py b/python/moz/l10n/formats/gettext/parse.py
index 45b74ef..8302311 100644
--- a/python/moz/l10n/formats/gettext/parse.py
+++ b/python/moz/l10n/formats/gettext/parse.py
@@ -72,7 +72,7 @@ def gettext_parse(
         if pe.tcomment:
             meta.append(Metadata("translator-comments", pe.tcomment))
         for file, line in pe.occurrences:
-            meta.append(Metadata("reference", f"{file}:{line}"))
+            meta.append(Metadata("reference", f"{file}:{line}" if line else file))
         if pe.obsolete:
             if skip_obsolete:
                 continue
diff --git a/python/moz/l10n/formats/gettext/serialize.py b/python/moz/l10n/formats/gettext/serialize.py
index ca065f2..3ae04be 100644
--- a/python/moz/l10n/formats/gettext/serialize.py
+++ b/python/moz/l10n/formats/gettext/serialize.py
@@ -126,10 +126,7 @@ def gettext_serialize(
                             cs = (m.value).lstrip("\n").rstrip()
                             pe.tcomment = f"{pe.tcomment}\n{cs}" if pe.tcomment else cs
                         elif m.key == "reference":
-                            pos = m.value.split(":", 1)
-                            pe.occurrences.append(
-                                (pos[0], pos[1]) if len(pos) == 2 else (m.value, "")
-                            )
+                            pe.occurrences.append((m.value, ""))
                         elif m.key == "flag":
                             pe.flags.append(m.value)
                         else:
-- 
2.43.0


From ed4b7327cda1d3834f30c456ce37c415e1eb76f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:25 +0000
Subject: [PATCH 024/141] fix: retain an empty msgctxt of a gettext entry

---
 python/moz/l10n/formats/gettext/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/gettext/parse.py b/python/moz/l10n/formats/gettext/parse.py
index 8302311..a7e9bdb 100644
--- a/python/moz/l10n/formats/gettext/parse.py
+++ b/python/moz/l10n/formats/gettext/parse.py
@@ -98,7 +98,7 @@ def gettext_parse(
             )
         else:
             value = PatternMessage([pe.msgstr])
-        id = (pe.msgid, pe.msgctxt) if pe.msgctxt else (pe.msgid,)
+        id = (pe.msgid,) if pe.msgctxt is None else (pe.msgid, pe.msgctxt)
         entries.append(Entry(id, value, comment=pe.comment, meta=meta))
     return Resource(Format.gettext, [Section((), entries)], res_comment, res_meta)
 
-- 
2.43.0


From 74d92efd788f10d414aeb7e98f9285dde9ed6aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:43 +0000
Subject: [PATCH 025/141] fix: refuse identifiers not supported by gettext

---
 python/moz/l10n/formats/gettext/serialize.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/moz/l10n/formats/gettext/serialize.py b/python/moz/l10n/formats/gettext/serialize.py
index 3ae04be..da596d4 100644
--- a/python/moz/l10n/formats/gettext/serialize.py
+++ b/python/moz/l10n/formats/gettext/serialize.py
@@ -62,11 +62,15 @@ def gettext_serialize(
     for section in resource.sections:
         if section.comment:
             raise ValueError("Section comments are not supported")
+        if section.id:
+            raise ValueError(f"Section identifiers not supported: {section.id}")
         if section.meta:
             raise ValueError("Section metadata is not supported")
         for entry in section.entries:
             if isinstance(entry, Entry):
                 context = entry.id[1] if len(entry.id) == 2 else None
+                if len(entry.id) not in (1, 2) or not (entry.id[0] or context):
+                    raise ValueError(f"Unsupported identifier: {entry.id}")
                 pe = POEntry(msgctxt=context, msgid=entry.id[0])
                 msg = entry.value
                 if isinstance(msg, str):
-- 
2.43.0


From cdc4d1381e526f3a4592959af586b4f296bcafa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:44 +0000
Subject: [PATCH 026/141] fix: serialize all lines of gettext comments as
 comments

---
 python/moz/l10n/formats/gettext/serialize.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/python/moz/l10n/formats/gettext/serialize.py b/python/moz/l10n/formats/gettext/serialize.py
index da596d4..ef4c4a9 100644
--- a/python/moz/l10n/formats/gettext/serialize.py
+++ b/python/moz/l10n/formats/gettext/serialize.py
@@ -15,7 +15,7 @@
 from __future__ import annotations
 
 from collections.abc import Iterator, Sequence
-from re import match
+from re import match, sub
 from typing import cast
 
 from polib import POEntry, POFile
@@ -48,7 +48,8 @@ def gettext_serialize(
 
     pf = POFile(wrapwidth=wrapwidth)
     if not trim_comments and resource.comment and not resource.comment.isspace():
-        pf.header = resource.comment.rstrip() + "\n"
+        # polib does not separate a leading , or : from its # prefix
+        pf.header = sub(r"(?m)^(?=[,:])", " ", comment_str(resource.comment)) + "\n"
     pf.metadata = {m.key: m.value for m in resource.meta}
     yield str(pf)
 
@@ -119,7 +120,7 @@ def gettext_serialize(
                         f"Value for {entry.id} is not supported: {entry.value}"
                     )
                 if not trim_comments and entry.comment:
-                    pe.comment = entry.comment.lstrip("\n").rstrip()
+                    pe.comment = comment_str(entry.comment).lstrip("\n")
                 for m in entry.meta:
                     if m.key == "obsolete":
                         pe.obsolete = m.value != "false"
@@ -127,7 +128,7 @@ def gettext_serialize(
                         pe.msgid_plural = m.value
                     elif not trim_comments:
                         if m.key == "translator-comments":
-                            cs = (m.value).lstrip("\n").rstrip()
+                            cs = comment_str(m.value).lstrip("\n")
                             pe.tcomment = f"{pe.tcomment}\n{cs}" if pe.tcomment else cs
                         elif m.key == "reference":
                             pe.occurrences.append((m.value, ""))
@@ -144,3 +145,7 @@ def gettext_serialize(
                 raise ValueError(
                     f"Standalone comments are not supported: {entry.comment}"
                 )
+
+
+def comment_str(comment: str) -> str:
+    return "\n".join(comment.rstrip().splitlines())
-- 
2.43.0


From 45892db72278952a310070e9120f08c01d0a883c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:45 +0000
Subject: [PATCH 027/141] fix: refuse gettext headers that would be parsed
 differently

---
 python/moz/l10n/formats/gettext/serialize.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/gettext/serialize.py b/python/moz/l10n/formats/gettext/serialize.py
index ef4c4a9..9aa6d0a 100644
--- a/python/moz/l10n/formats/gettext/serialize.py
+++ b/python/moz/l10n/formats/gettext/serialize.py
@@ -50,7 +50,16 @@ def gettext_serialize(
     if not trim_comments and resource.comment and not resource.comment.isspace():
         # polib does not separate a leading , or : from its # prefix
         pf.header = sub(r"(?m)^(?=[,:])", " ", comment_str(resource.comment)) + "\n"
-    pf.metadata = {m.key: m.value for m in resource.meta}
+    for m in resource.meta:
+        _, *cont = m.value.splitlines() or [""]
+        if (
+            m.key in pf.metadata
+            or ":" in m.key
+            or m.key.splitlines() != [m.key]
+            or any(":" in line for line in cont)
+        ):
+            raise ValueError(f'Unsupported header "{m.key}": {m.value}')
+        pf.metadata[m.key] = m.value
     yield str(pf)
 
     nplurals = 1
-- 
2.43.0


From 7ca2de3a5a9daf6dd33c78e0fc74d17d06c88684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:46 +0000
Subject: [PATCH 028/141] fix: do not drop plural variants when serializing
 gettext

---
 python/moz/l10n/formats/gettext/serialize.py | 41 +++++++++-----------
 1 file changed, 19 insertions(+), 22 deletions(-)

diff --git a/python/moz/l10n/formats/gettext/serialize.py b/python/moz/l10n/formats/gettext/serialize.py
index 9aa6d0a..2e6d825 100644
--- a/python/moz/l10n/formats/gettext/serialize.py
+++ b/python/moz/l10n/formats/gettext/serialize.py
@@ -43,6 +43,9 @@ def gettext_serialize(
     Otherwise, plural key values must match gettext's plural index values,
     or be the catchall key.
 
+    If the number of plurals is not set by a `Plural-Forms` header,
+    it is determined by `plurals` or the number of variants.
+
     Yields each entry and empty line separately.
     """
 
@@ -62,7 +65,7 @@ def gettext_serialize(
         pf.metadata[m.key] = m.value
     yield str(pf)
 
-    nplurals = 1
+    nplurals = 0
     plural_forms = pf.metadata.get("Plural-Forms", None)
     if isinstance(plural_forms, str):
         pm = match(r"\s*nplurals=(\d+);", plural_forms)
@@ -101,28 +104,22 @@ def gettext_serialize(
                         for keys, pattern in msg.variants.items()
                     )
                 ):
-                    catchall_name = plurals[-1] if plurals else str(nplurals - 1)
-                    variants = tuple(
-                        (
-                            (
-                                key
-                                if isinstance(key := keys[0], str)
-                                else key.value or catchall_name
-                            ),
-                            "".join(cast(Sequence[str], pattern)),
-                        )
-                        for keys, pattern in msg.variants.items()
-                    )
+                    count = nplurals or len(plurals or msg.variants) or 1
+                    names = (plurals or [str(idx) for idx in range(count)])[:count]
+                    variants: dict[str, str] = {}
+                    for (key,), pattern in msg.variants.items():
+                        if isinstance(key, str):
+                            name = key
+                        else:
+                            name = key.value if key.value in names else names[-1]
+                        if name not in names or name in variants:
+                            raise ValueError(
+                                f"Unsupported plural key for {entry.id}: {key}"
+                            )
+                        variants[name] = "".join(cast(Sequence[str], pattern))
                     pe.msgstr_plural = {
-                        idx: next(
-                            (
-                                pattern
-                                for key, pattern in variants
-                                if key == (plurals[idx] if plurals else str(idx))
-                            ),
-                            "",
-                        )
-                        for idx in range(nplurals)
+                        idx: variants.get(names[idx], "") if idx < len(names) else ""
+                        for idx in range(count)
                     }
                 else:
                     raise ValueError(
-- 
2.43.0


From d9f43bf8a241b226915a21447f2c6c8ec0f8bc92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:47 +0000
Subject: [PATCH 029/141] fix: refuse gettext references and flags that would
 be split

---
 python/moz/l10n/formats/gettext/serialize.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/gettext/serialize.py b/python/moz/l10n/formats/gettext/serialize.py
index 2e6d825..fd2e847 100644
--- a/python/moz/l10n/formats/gettext/serialize.py
+++ b/python/moz/l10n/formats/gettext/serialize.py
@@ -15,7 +15,7 @@
 from __future__ import annotations
 
 from collections.abc import Iterator, Sequence
-from re import match, sub
+from re import match, search, sub
 from typing import cast
 
 from polib import POEntry, POFile
@@ -137,8 +137,16 @@ def gettext_serialize(
                             cs = comment_str(m.value).lstrip("\n")
                             pe.tcomment = f"{pe.tcomment}\n{cs}" if pe.tcomment else cs
                         elif m.key == "reference":
+                            if m.value.split() != [m.value]:
+                                raise ValueError(
+                                    f"Unsupported reference for {entry.id}: {m.value}"
+                                )
                             pe.occurrences.append((m.value, ""))
                         elif m.key == "flag":
+                            if not m.value or search(r"^\s|[,\r\n]|\s$", m.value):
+                                raise ValueError(
+                                    f"Unsupported flag for {entry.id}: {m.value}"
+                                )
                             pe.flags.append(m.value)
                         else:
                             raise ValueError(
-- 
2.43.0


From 4b357611a4925841b0d8b5e483086027843e8eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:59 +0000
Subject: [PATCH 030/141] fix: do not modify the placeholders passed to
 webext_parse_message()

---
 python/moz/l10n/formats/webext/parse.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/python/moz/l10n/formats/webext/parse.py b/python/moz/l10n/formats/webext/parse.py
index 39ffc8b..d65f008 100644
--- a/python/moz/l10n/formats/webext/parse.py
+++ b/python/moz/l10n/formats/webext/parse.py
@@ -72,6 +72,7 @@ def webext_parse_message(
     )
     pattern: Pattern = []
     declarations: dict[str, Expression] = {}
+    ph_names: dict[str, str] = {}
     pos = 0
     for m in placeholder.finditer(source):
         text = source[pos : m.start()]
@@ -86,8 +87,8 @@ def webext_parse_message(
             ph = ph_data.get(ph_key, None)
             if ph is None:
                 raise ValueError(f"Missing placeholders entry for {ph_key}")
-            elif "_name" in ph:
-                ph_name = ph["_name"]
+            elif ph_key in ph_names:
+                ph_name = ph_names[ph_key]
             else:
                 decl_src = ph["content"]
                 decl_arg_match = pos_arg.fullmatch(decl_src)
@@ -105,7 +106,7 @@ def webext_parse_message(
                 if ph_name[0].isdigit():
                     ph_name = f"_{ph_name}"
                 declarations[ph_name] = decl_value
-                ph["_name"] = ph_name
+                ph_names[ph_key] = ph_name
             exp = Expression(VariableRef(ph_name), attributes={"source": m[0]})
             pattern.append(exp)
         elif m[2]:
-- 
2.43.0


From 7d82ce06feefc05aa2ec9658e3bac4f9a0c1a0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:00 +0000
Subject: [PATCH 031/141] fix: use distinct variable names for webext
 placeholders

---
 python/moz/l10n/formats/webext/parse.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/moz/l10n/formats/webext/parse.py b/python/moz/l10n/formats/webext/parse.py
index d65f008..b1375b6 100644
--- a/python/moz/l10n/formats/webext/parse.py
+++ b/python/moz/l10n/formats/webext/parse.py
@@ -33,6 +33,7 @@ from .. import Format
 
 placeholder = compile(r"\$([a-zA-Z0-9_@]+)\$|(\$[1-9])|\$(\$+)")
 pos_arg = compile(r"\$([1-9])")
+arg_name = compile(r"arg[1-9]")
 
 
 def webext_parse(source: str | bytes) -> Resource[Message]:
@@ -105,6 +106,8 @@ def webext_parse_message(
                 ph_name = m[1].replace("@", "_")
                 if ph_name[0].isdigit():
                     ph_name = f"_{ph_name}"
+                while ph_name in declarations or arg_name.fullmatch(ph_name):
+                    ph_name += "_"
                 declarations[ph_name] = decl_value
                 ph_names[ph_key] = ph_name
             exp = Expression(VariableRef(ph_name), attributes={"source": m[0]})
-- 
2.43.0


From 7e76c47315425b780a22f7e80667b06aad058c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:01 +0000
Subject: [PATCH 032/141] fix: serialize webext argument variables with no
 source attribute

---
 python/moz/l10n/formats/webext/serialize.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/python/moz/l10n/formats/webext/serialize.py b/python/moz/l10n/formats/webext/serialize.py
index 53fb6a0..51f8dd3 100644
--- a/python/moz/l10n/formats/webext/serialize.py
+++ b/python/moz/l10n/formats/webext/serialize.py
@@ -16,7 +16,7 @@ from __future__ import annotations
 
 from collections.abc import Iterator
 from json import dumps
-from re import sub
+from re import fullmatch, sub
 from typing import Any
 
 from ...model import (
@@ -118,7 +118,7 @@ def webext_serialize_message(
                 if isinstance(local_source, str):
                     content = local_source
                 elif isinstance(local.arg, VariableRef):
-                    content = local.arg.name
+                    content = arg_source(local.arg.name)
                     if not content.startswith("$"):
                         content = f"${content}"
                 elif isinstance(local.arg, str):
@@ -149,8 +149,14 @@ def webext_serialize_message(
                         )
                 msgstr += source or f"${ph_name}$"
             else:
-                arg_name = source if isinstance(source, str) else ph_name
+                arg_name = source if isinstance(source, str) else arg_source(ph_name)
                 msgstr += arg_name if arg_name.startswith("$") else f"${arg_name}"
         else:
             raise ValueError(f"Unsupported message part: {part}")
     return msgstr, dict(sorted(placeholders.items()))
+
+
+def arg_source(name: str) -> str:
+    """The `$1` source for the variable name `arg1`, and so on."""
+    m = fullmatch(r"arg([1-9])", name)
+    return f"${m[1]}" if m else name
-- 
2.43.0


From 051b51ea31313e82f55e063021d8c4c5e85c11d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:02 +0000
Subject: [PATCH 033/141] fix: refuse duplicate and conflicting identifiers in
 JSON formats

---
 python/moz/l10n/formats/plain_json/serialize.py | 12 ++++++++++--
 python/moz/l10n/formats/webext/serialize.py     |  2 ++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/formats/plain_json/serialize.py b/python/moz/l10n/formats/plain_json/serialize.py
index b72680f..ce7f213 100644
--- a/python/moz/l10n/formats/plain_json/serialize.py
+++ b/python/moz/l10n/formats/plain_json/serialize.py
@@ -45,13 +45,19 @@ def plain_json_serialize(
     def ddict() -> dict[str, Any]:
         return defaultdict(ddict)
 
+    def child(parent: dict[str, Any], part: str) -> dict[str, Any]:
+        res = parent[part]
+        if not isinstance(res, dict):
+            raise ValueError(f"Identifier part of both a message and an object: {part}")
+        return res
+
     check(resource.comment, resource.meta)
     root = ddict()
     for section in resource.sections:
         check(section.comment, section.meta)
         section_parent = root
         for part in section.id:
-            section_parent = section_parent[part]
+            section_parent = child(section_parent, part)
         for entry in section.entries:
             if isinstance(entry, Entry):
                 check(entry.comment, entry.meta)
@@ -70,7 +76,9 @@ def plain_json_serialize(
                     )
                 parent = section_parent
                 for part in entry.id[:-1]:
-                    parent = parent[part]
+                    parent = child(parent, part)
+                if entry.id[-1] in parent:
+                    raise ValueError(f"Duplicate identifier: {section.id + entry.id}")
                 parent[entry.id[-1]] = value
             else:
                 check(entry.comment, None)
diff --git a/python/moz/l10n/formats/webext/serialize.py b/python/moz/l10n/formats/webext/serialize.py
index 51f8dd3..fd015ed 100644
--- a/python/moz/l10n/formats/webext/serialize.py
+++ b/python/moz/l10n/formats/webext/serialize.py
@@ -63,6 +63,8 @@ def webext_serialize(
                 if len(entry.id) != 1:
                     raise ValueError(f"Unsupported entry identifier: {entry.id}")
                 name = entry.id[0]
+                if name in res:
+                    raise ValueError(f"Duplicate entry identifier: {entry.id}")
                 if isinstance(entry.value, str):
                     res[name] = {"message": entry.value}
                     if not trim_comments and entry.comment:
-- 
2.43.0


From 3f9d0ee068d2d5c62b6f9e51ba0e93f18bca70d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:03 +0000
Subject: [PATCH 034/141] fix: escape $ across adjacent text parts of webext
 messages

---
 python/moz/l10n/formats/webext/serialize.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/python/moz/l10n/formats/webext/serialize.py b/python/moz/l10n/formats/webext/serialize.py
index fd015ed..e533781 100644
--- a/python/moz/l10n/formats/webext/serialize.py
+++ b/python/moz/l10n/formats/webext/serialize.py
@@ -23,6 +23,7 @@ from ...model import (
     Entry,
     Expression,
     Message,
+    Pattern,
     PatternMessage,
     Resource,
     VariableRef,
@@ -104,7 +105,13 @@ def webext_serialize_message(
         raise ValueError(f"Unsupported message: {msg}")
     msgstr = ""
     placeholders: dict[str, Any] = {}
+    pattern: Pattern = []
     for part in msg.pattern:
+        if isinstance(part, str) and pattern and isinstance(pattern[-1], str):
+            pattern[-1] += part
+        else:
+            pattern.append(part)
+    for part in pattern:
         if isinstance(part, str):
             msgstr += sub(r"\$+", r"$\g<0>", part)
         elif (
-- 
2.43.0


From 1fa8db534560c788bee503e3464dcee4c1e5dd32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:04 +0000
Subject: [PATCH 035/141] fix: refuse webext messages that would be parsed
 differently

---
 python/moz/l10n/formats/webext/serialize.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/moz/l10n/formats/webext/serialize.py b/python/moz/l10n/formats/webext/serialize.py
index e533781..a6903fb 100644
--- a/python/moz/l10n/formats/webext/serialize.py
+++ b/python/moz/l10n/formats/webext/serialize.py
@@ -28,6 +28,7 @@ from ...model import (
     Resource,
     VariableRef,
 )
+from .parse import placeholder
 
 
 def webext_serialize(
@@ -105,6 +106,7 @@ def webext_serialize_message(
         raise ValueError(f"Unsupported message: {msg}")
     msgstr = ""
     placeholders: dict[str, Any] = {}
+    spans: list[tuple[int, int]] = []
     pattern: Pattern = []
     for part in msg.pattern:
         if isinstance(part, str) and pattern and isinstance(pattern[-1], str):
@@ -119,6 +121,7 @@ def webext_serialize_message(
             and isinstance(part.arg, VariableRef)
             and part.function is None
         ):
+            start = len(msgstr)
             ph_name = part.arg.name
             source = part.attributes.get("source", None)
             local = msg.declarations.get(ph_name, None)
@@ -160,8 +163,11 @@ def webext_serialize_message(
             else:
                 arg_name = source if isinstance(source, str) else arg_source(ph_name)
                 msgstr += arg_name if arg_name.startswith("$") else f"${arg_name}"
+            spans.append((start, len(msgstr)))
         else:
             raise ValueError(f"Unsupported message part: {part}")
+    if spans != [m.span() for m in placeholder.finditer(msgstr) if not m[3]]:
+        raise ValueError(f"Unsupported placeholder names or positions: {msgstr}")
     return msgstr, dict(sorted(placeholders.items()))
 
 
-- 
2.43.0


From 05ab245ed493a21e59acb20931ae44e2375aeead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:22 +0000
Subject: [PATCH 036/141] fix: refuse different webext placeholders with the
 same name

---
 python/moz/l10n/formats/webext/serialize.py | 26 +++++++++++++--------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/python/moz/l10n/formats/webext/serialize.py b/python/moz/l10n/formats/webext/serialize.py
index a6903fb..ac4d04a 100644
--- a/python/moz/l10n/formats/webext/serialize.py
+++ b/python/moz/l10n/formats/webext/serialize.py
@@ -148,17 +148,23 @@ def webext_serialize_message(
                     ph_name = source[1:-1]
                 else:
                     source = None
-                if not any(key.lower() == ph_name.lower() for key in placeholders):
-                    placeholders[ph_name] = {"content": content}
-                    example = (
-                        None if trim_comments else local.attributes.get("example", None)
+                ph = {"content": content}
+                example = (
+                    None if trim_comments else local.attributes.get("example", None)
+                )
+                if isinstance(example, str):
+                    ph["example"] = example
+                elif example:
+                    raise ValueError(
+                        f"Unsupported placeholder example for {ph_name}: {example}"
                     )
-                    if isinstance(example, str):
-                        placeholders[ph_name]["example"] = example
-                    elif example:
-                        raise ValueError(
-                            f"Unsupported placeholder example for {ph_name}: {example}"
-                        )
+                for key, prev in placeholders.items():
+                    if key.lower() == ph_name.lower():
+                        if prev != ph:
+                            raise ValueError(f"Conflicting placeholders for {ph_name}")
+                        break
+                else:
+                    placeholders[ph_name] = ph
                 msgstr += source or f"${ph_name}$"
             else:
                 arg_name = source if isinstance(source, str) else arg_source(ph_name)
-- 
2.43.0


From f8982504a950fb6e35724c74de6bc7b90e7013d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:23 +0000
Subject: [PATCH 037/141] fix: refuse webext variables with no placeholders
 entry

---
 python/moz/l10n/formats/webext/serialize.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/python/moz/l10n/formats/webext/serialize.py b/python/moz/l10n/formats/webext/serialize.py
index ac4d04a..4307556 100644
--- a/python/moz/l10n/formats/webext/serialize.py
+++ b/python/moz/l10n/formats/webext/serialize.py
@@ -28,7 +28,7 @@ from ...model import (
     Resource,
     VariableRef,
 )
-from .parse import placeholder
+from .parse import placeholder, pos_arg
 
 
 def webext_serialize(
@@ -132,7 +132,9 @@ def webext_serialize_message(
                 elif isinstance(local.arg, VariableRef):
                     content = arg_source(local.arg.name)
                     if not content.startswith("$"):
-                        content = f"${content}"
+                        raise ValueError(
+                            f"Unsupported placeholder for {ph_name}: {local}"
+                        )
                 elif isinstance(local.arg, str):
                     content = local.arg
                 else:
@@ -168,7 +170,9 @@ def webext_serialize_message(
                 msgstr += source or f"${ph_name}$"
             else:
                 arg_name = source if isinstance(source, str) else arg_source(ph_name)
-                msgstr += arg_name if arg_name.startswith("$") else f"${arg_name}"
+                if not pos_arg.fullmatch(arg_name):
+                    raise ValueError(f"Missing placeholders entry for {ph_name}")
+                msgstr += arg_name
             spans.append((start, len(msgstr)))
         else:
             raise ValueError(f"Unsupported message part: {part}")
-- 
2.43.0


From 7eeac80ede2d91779e6d26a2bb3919c54be1da6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:32 +0000
Subject: [PATCH 038/141] fix: set the end line of Fluent entries with
 attributes

---
 python/moz/l10n/formats/fluent/parse.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/python/moz/l10n/formats/fluent/parse.py b/python/moz/l10n/formats/fluent/parse.py
index 1bcecb2..fc42f1a 100644
--- a/python/moz/l10n/formats/fluent/parse.py
+++ b/python/moz/l10n/formats/fluent/parse.py
@@ -209,7 +209,7 @@ def fluent_entry(
             entry.properties[attr.id.name] = prop_msg
         if lpm and entry.linepos and attr.span:
             span = attr.value.span or attr.span
-            entry.linepos.end = span.end
+            entry.linepos.end = lpm.get_line(span.end)
 
     return entry
 
@@ -419,7 +419,7 @@ class LinePosMapper:
         self._len = len(src)
         self._newlines = [m.start() for m in finditer("\n", src)]
 
-    def _get_line(self, char_idx: int) -> int:
+    def get_line(self, char_idx: int) -> int:
         # Treat the end of the string as a newline.
         if not self._newlines and char_idx >= self._len:
             return 2
@@ -429,8 +429,8 @@ class LinePosMapper:
         )
 
     def get_linepos(self, start: int, key: int, value: int, end: int) -> LinePos:
-        start_line = self._get_line(start)
-        key_line = start_line if key == start else self._get_line(key)
-        value_line = key_line if value == key else self._get_line(value)
-        end_line = self._get_line(end)
+        start_line = self.get_line(start)
+        key_line = start_line if key == start else self.get_line(key)
+        value_line = key_line if value == key else self.get_line(value)
+        end_line = self.get_line(end)
         return LinePos(start_line, key_line, value_line, end_line)
-- 
2.43.0


From 80a1a06d5683353d5b911cd0f72a6dbf793c7cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:33 +0000
Subject: [PATCH 039/141] fix: use the key line as the value line of Fluent
 messages with no value

---
 python/moz/l10n/formats/fluent/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/fluent/parse.py b/python/moz/l10n/formats/fluent/parse.py
index fc42f1a..6d04a39 100644
--- a/python/moz/l10n/formats/fluent/parse.py
+++ b/python/moz/l10n/formats/fluent/parse.py
@@ -196,7 +196,7 @@ def fluent_entry(
             else ftl_entry.span
         )
         k_span = ftl_entry.id.span or ftl_entry.span
-        v_span = (ftl_entry.value.span if ftl_entry.value else None) or ftl_entry.span
+        v_span = (ftl_entry.value.span if ftl_entry.value else None) or k_span
         entry.linepos = lpm.get_linepos(
             c_span.start, k_span.start, v_span.start, v_span.end
         )
-- 
2.43.0


From 8735498769ce380c331026725d0843a834825960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:34 +0000
Subject: [PATCH 040/141] fix: count the lines of Fluent sources with CRLF or
 no final newline

---
 python/moz/l10n/formats/fluent/parse.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/python/moz/l10n/formats/fluent/parse.py b/python/moz/l10n/formats/fluent/parse.py
index 6d04a39..0173869 100644
--- a/python/moz/l10n/formats/fluent/parse.py
+++ b/python/moz/l10n/formats/fluent/parse.py
@@ -416,13 +416,12 @@ def literal_value(arg: ftl.NumberLiteral | ftl.StringLiteral) -> str:
 
 class LinePosMapper:
     def __init__(self, src: str) -> None:
-        self._len = len(src)
-        self._newlines = [m.start() for m in finditer("\n", src)]
+        self._newlines = [m.start() for m in finditer("\r?\n", src)]
+        # Treat the end of the string as a newline.
+        if src and not src.endswith("\n"):
+            self._newlines.append(len(src))
 
     def get_line(self, char_idx: int) -> int:
-        # Treat the end of the string as a newline.
-        if not self._newlines and char_idx >= self._len:
-            return 2
         return next(
             (idx + 1 for idx, nl in enumerate(self._newlines) if nl > char_idx),
             len(self._newlines) + 1,
-- 
2.43.0


From 64893f7e3fcd4c45bc2ae8576dd3635ad3bd0103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:35 +0000
Subject: [PATCH 041/141] fix: parse Fluent selects within nested placeables

---
 python/moz/l10n/formats/fluent/parse.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/python/moz/l10n/formats/fluent/parse.py b/python/moz/l10n/formats/fluent/parse.py
index 0173869..bf64a57 100644
--- a/python/moz/l10n/formats/fluent/parse.py
+++ b/python/moz/l10n/formats/fluent/parse.py
@@ -16,7 +16,7 @@ from __future__ import annotations
 
 from itertools import product
 from re import finditer
-from typing import cast
+from typing import Any, cast
 
 from fluent.syntax import FluentParser, ParseError
 from fluent.syntax import ast as ftl
@@ -315,11 +315,12 @@ def find_selectors(
     result: list[tuple[Expression, list[ftl.InlineExpression], list[Key]]],
 ) -> list[tuple[Expression, list[ftl.InlineExpression], list[Key]]]:
     for el in pattern.elements:
-        if isinstance(el, ftl.Placeable) and isinstance(
-            el.expression, ftl.SelectExpression
-        ):
-            ftl_sel = el.expression.selector
-            keys = [variant_key(v) for v in el.expression.variants]
+        exp: Any = el
+        while isinstance(exp, ftl.Placeable):
+            exp = exp.expression
+        if isinstance(exp, ftl.SelectExpression):
+            ftl_sel = exp.selector
+            keys = [variant_key(v) for v in exp.variants]
             msg_sel = select_expression(ftl_sel, keys)
             prev = next((x for x in result if x[0] == msg_sel), None)
             if prev:
@@ -328,7 +329,7 @@ def find_selectors(
                 key_list += keys
             else:
                 result.append((msg_sel, [ftl_sel], keys))
-            for v in el.expression.variants:
+            for v in exp.variants:
                 find_selectors(v.value, result)
     return result
 
-- 
2.43.0


From 7ef2803ecef5eb8389b3c66d61a5a6ae3f4ce5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:23 +0000
Subject: [PATCH 042/141] fix: apply default variants to all keys of a Fluent
 selector

---
 python/moz/l10n/formats/fluent/parse.py | 92 ++++++++++++++++---------
 1 file changed, 58 insertions(+), 34 deletions(-)

diff --git a/python/moz/l10n/formats/fluent/parse.py b/python/moz/l10n/formats/fluent/parse.py
index bf64a57..ae70632 100644
--- a/python/moz/l10n/formats/fluent/parse.py
+++ b/python/moz/l10n/formats/fluent/parse.py
@@ -217,18 +217,15 @@ def fluent_entry(
 def message(ftl_pattern: ftl.Pattern) -> Message:
     sel_data = find_selectors(ftl_pattern, [])
     sel_expressions = [sd[0] for sd in sel_data]
-    filter: list[Key | None] = [None] * len(sel_expressions)
-    msg_variants: dict[tuple[Key, ...], Pattern]
+    key_lists = [variant_keys(sd[2]) for sd in sel_data]
     var_names: set[str] = set()
-    if sel_expressions:
-        key_lists = [list(dict.fromkeys(sd[2])) for sd in sel_data]
-        for keys in key_lists:
-            keys.sort(key=lambda k: (k[2], not k[1]))
-        msg_variants = {key: [] for key in product(*key_lists)}
-    else:
-        msg_variants = {(): []}
 
-    def add_pattern(ftl_pattern: ftl.Pattern) -> None:
+    def add_pattern(
+        ftl_pattern: ftl.Pattern,
+        keys: tuple[Key, ...],
+        result: Pattern,
+        matches: dict[int, bool],
+    ) -> None:
         el: (
             ftl.TextElement
             | ftl.Placeable
@@ -239,30 +236,43 @@ def message(ftl_pattern: ftl.Pattern) -> Message:
             while isinstance(el, ftl.Placeable):
                 el = el.expression
             if isinstance(el, ftl.SelectExpression):
-                msg_sel = next(sd[0] for sd in sel_data if el.selector in sd[1])
-                idx = sel_expressions.index(msg_sel)
-                prev_filt = filter[idx]
-                for v in el.variants:
-                    filter[idx] = variant_key(v)
-                    add_pattern(v.value)
-                filter[idx] = prev_filt
+                idx = next(i for i, sd in enumerate(sel_data) if el.selector in sd[1])
+                name, is_numeric, is_default = keys[idx]
+                variant = None
+                if not is_default:
+                    variant = next(
+                        (
+                            v
+                            for v in el.variants
+                            if variant_key(v)[:2] == (name, is_numeric)
+                        ),
+                        None,
+                    )
+                    matches[idx] = matches.get(idx, False) or variant is not None
+                if variant is None:
+                    variant = next(v for v in el.variants if v.default)
+                add_pattern(variant.value, keys, result, matches)
+            elif isinstance(el, ftl.TextElement):
+                if result and isinstance(result[-1], str):
+                    result[-1] += el.value
+                else:
+                    result.append(el.value)
             else:
-                for keys, msg_pattern in msg_variants.items():
-                    if all(
-                        (filt is None or key == filt) for key, filt in zip(keys, filter)
-                    ):
-                        if isinstance(el, ftl.TextElement):
-                            if msg_pattern and isinstance(msg_pattern[-1], str):
-                                msg_pattern[-1] += el.value
-                            else:
-                                msg_pattern.append(el.value)
-                        else:
-                            expr = inline_expression(el)
-                            if isinstance(expr.arg, VariableRef):
-                                var_names.add(expr.arg.name)
-                            msg_pattern.append(expr)
-
-    add_pattern(ftl_pattern)
+                expr = inline_expression(el)
+                if isinstance(expr.arg, VariableRef):
+                    var_names.add(expr.arg.name)
+                result.append(expr)
+
+    msg_variants: dict[tuple[Key, ...], Pattern] = {}
+    matching: set[tuple[Key, ...]] = set()
+    for keys in product(*key_lists):
+        msg_pattern: Pattern = []
+        matches: dict[int, bool] = {}
+        add_pattern(ftl_pattern, keys, msg_pattern, matches)
+        msg_variants[keys] = msg_pattern
+        for idx in range(len(keys)):
+            if matches.get(idx, True):
+                matching.add(keys[: idx + 1])
 
     if sel_expressions:
         declarations = {}
@@ -282,7 +292,8 @@ def message(ftl_pattern: ftl.Pattern) -> Message:
         variants = {
             tuple(map(message_key, keys)): msg_pattern
             for keys, msg_pattern in msg_variants.items()
-            if msg_pattern
+            # Leave out keys which always match the default variant
+            if all(keys[: idx + 1] in matching for idx in range(len(keys)))
         }
         return SelectMessage(declarations, tuple(selectors), variants)
     else:
@@ -305,6 +316,19 @@ def variant_key(v: ftl.Variant) -> Key:
     return (name, is_numeric, v.default)
 
 
+def variant_keys(keys: list[Key]) -> list[Key]:
+    """
+    The distinct keys of all select expressions with the same selector:
+    Numerical ones first, and exactly one default key last.
+    """
+    result = list(dict.fromkeys(k for k in keys if not k[2]))
+    result.sort(key=lambda k: not k[1])
+    names = {k[0] for k in result}
+    defaults = [k for k in keys if k[2]]
+    result.append(next((k for k in defaults if k[0] not in names), defaults[0]))
+    return result
+
+
 def message_key(key: Key) -> str | CatchallKey:
     name, _, is_default = key
     return CatchallKey(name) if is_default else name
-- 
2.43.0


From cdae31b2de7029519084bcc1503ff73bd9ba8e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:25 +0000
Subject: [PATCH 043/141] fix: use distinct names for all selectors of a Fluent
 message

---
 python/moz/l10n/formats/fluent/parse.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/formats/fluent/parse.py b/python/moz/l10n/formats/fluent/parse.py
index ae70632..390537d 100644
--- a/python/moz/l10n/formats/fluent/parse.py
+++ b/python/moz/l10n/formats/fluent/parse.py
@@ -275,11 +275,18 @@ def message(ftl_pattern: ftl.Pattern) -> Message:
                 matching.add(keys[: idx + 1])
 
     if sel_expressions:
-        declarations = {}
+        declarations: dict[str, Expression] = {}
         selectors = []
+        for expr in sel_expressions:
+            if isinstance(expr.arg, VariableRef):
+                var_names.add(expr.arg.name)
         for expr in sel_expressions:
             name = expr.arg.name if isinstance(expr.arg, VariableRef) else None
-            if name is None or expr.attributes.get("fluent-fn") is not None:
+            if (
+                name is None
+                or name in declarations
+                or expr.attributes.get("fluent-fn") is not None
+            ):
                 stem = name or "sel"
                 name = None
                 i = 0
-- 
2.43.0


From 0847167e8b57f0a1b1b579c98e9a7ea7a960bb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:57 +0000
Subject: [PATCH 044/141] fix: refuse invalid identifiers in Fluent

---
 python/moz/l10n/formats/fluent/serialize.py | 27 +++++++++++++++------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/python/moz/l10n/formats/fluent/serialize.py b/python/moz/l10n/formats/fluent/serialize.py
index 9312a18..0dde8f0 100644
--- a/python/moz/l10n/formats/fluent/serialize.py
+++ b/python/moz/l10n/formats/fluent/serialize.py
@@ -37,6 +37,9 @@ from ...model import (
     VariableRef,
 )
 
+identifier_re = compile(r"[a-zA-Z][a-zA-Z0-9_-]*")
+function_re = compile(r"[A-Z][A-Z0-9_-]*")
+
 ws_at_start = compile(r"\s+")
 ws_at_end = compile(r"\s+$")
 
@@ -204,7 +207,7 @@ def fluent_astify_entry(
     )
     attributes = list(
         ftl.Attribute(
-            ftl.Identifier(key),
+            identifier(key),
             fluent_astify_message(val, escape_empty=True, escape_syntax=escape_syntax),
         )
         for key, val in entry.properties.items()
@@ -221,13 +224,13 @@ def fluent_astify_entry(
         c_str = comment_str(entry)
     comment = ftl.Comment(c_str) if c_str else None
     if is_term:
-        return ftl.Term(ftl.Identifier(id[1:]), value, attributes, comment)
+        return ftl.Term(identifier(id[1:]), value, attributes, comment)
     else:
         if pattern_is_empty(value):
             value_ = None if attributes else valid_empty_pattern(value)
         else:
             value_ = value
-        return ftl.Message(ftl.Identifier(id), value_, attributes, comment)
+        return ftl.Message(identifier(id), value_, attributes, comment)
 
 
 def fluent_serialize_message(
@@ -340,6 +343,12 @@ def fluent_astify_message(
     return variants[0][1]
 
 
+def identifier(name: str) -> ftl.Identifier:
+    if not identifier_re.fullmatch(name):
+        raise ValueError(f"Unsupported identifier: {name}")
+    return ftl.Identifier(name)
+
+
 def fallback_name(message: SelectMessage) -> str:
     """
     Try `other`, `other1`, `other2`, ... until a free one is found.
@@ -360,7 +369,7 @@ def variant_key(
         float(kv)
         return ftl.NumberLiteral(kv)
     except Exception:
-        if fullmatch(r"[a-zA-Z][\w-]*", kv):
+        if identifier_re.fullmatch(kv):
             return ftl.Identifier(kv)
         raise ValueError(f"Unsupported variant key: {kv}")
 
@@ -456,7 +465,7 @@ def function_ref(
     for name, val in expr.options.items():
         ftl_val = value(decl, val)
         if isinstance(ftl_val, ftl.Literal):
-            named.append(ftl.NamedArgument(ftl.Identifier(name), ftl_val))
+            named.append(ftl.NamedArgument(identifier(name), ftl_val))
         else:
             raise ValueError(
                 f"Fluent option value must be literal for {name}: {ftl_val}"
@@ -489,7 +498,9 @@ def function_ref(
             raise ValueError(
                 "Message and term references must have a literal message identifier"
             )
-        match = fullmatch(r"(-?[a-zA-Z][\w-]*)(?:\.([a-zA-Z][\w-]*))?", arg.value)
+        match = fullmatch(
+            r"(-?[a-zA-Z][a-zA-Z0-9_-]*)(?:\.([a-zA-Z][a-zA-Z0-9_-]*))?", arg.value
+        )
         if not match:
             raise ValueError(f"Invalid message or term identifier: {arg.value}")
         msg_id = match[1]
@@ -505,6 +516,8 @@ def function_ref(
 
     if not ftl_name or not isinstance(ftl_name, str):
         raise ValueError(f"A @fluent-fn attribute is required for :{function}")
+    if not function_re.fullmatch(ftl_name):
+        raise ValueError(f"Invalid Fluent function name: {ftl_name}")
 
     args = ftl.CallArguments([arg] if arg else None, named)
     return ftl.FunctionReference(ftl.Identifier(ftl_name), args)
@@ -527,4 +540,4 @@ def value(
     elif val.name != decl_name and val.name in decl:
         return expression(decl, decl[val.name], val.name)
     else:
-        return ftl.VariableReference(ftl.Identifier(val.name))
+        return ftl.VariableReference(identifier(val.name))
-- 
2.43.0


From c0b5b9d21fb9ff7df7cbd30623b3c71f9830f3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:58 +0000
Subject: [PATCH 045/141] fix: refuse section identifiers in Fluent

---
 python/moz/l10n/formats/fluent/serialize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/moz/l10n/formats/fluent/serialize.py b/python/moz/l10n/formats/fluent/serialize.py
index 0dde8f0..f637f86 100644
--- a/python/moz/l10n/formats/fluent/serialize.py
+++ b/python/moz/l10n/formats/fluent/serialize.py
@@ -143,6 +143,8 @@ def fluent_astify(
     if res_comment:
         body.append(ftl.ResourceComment(res_comment))
     for idx, section in enumerate(resource.sections):
+        if section.id:
+            raise ValueError(f"Unsupported section id: {section.id}")
         section_comment = comment_str(section)
         if (not trim_comments and idx != 0) or section_comment:
             body.append(ftl.GroupComment(section_comment))
-- 
2.43.0


From 965fc98cfc40da6c263f9f4a992da7e74a14e2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:59 +0000
Subject: [PATCH 046/141] fix: refuse Fluent references not valid as placeables
 or selectors

---
 python/moz/l10n/formats/fluent/serialize.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/fluent/serialize.py b/python/moz/l10n/formats/fluent/serialize.py
index f637f86..95435c2 100644
--- a/python/moz/l10n/formats/fluent/serialize.py
+++ b/python/moz/l10n/formats/fluent/serialize.py
@@ -323,6 +323,10 @@ def fluent_astify_message(
             and not selector.arguments.named
         ):
             selector = selector.arguments.positional[0]
+        if isinstance(selector, ftl.MessageReference) or (
+            isinstance(selector, ftl.TermReference) and not selector.attribute
+        ):
+            raise ValueError("Messages and terms are not supported as selectors")
         base_keys = []
         sel_exp = None
         i = 0
@@ -401,7 +405,10 @@ def flat_pattern(
                     continue
             elements += text(el, escape_syntax)
         elif isinstance(el, Expression):
-            elements.append(ftl.Placeable(expression(decl, el)))
+            exp = expression(decl, el)
+            if isinstance(exp, ftl.TermReference) and exp.attribute:
+                raise ValueError("Term attributes are not supported as placeables")
+            elements.append(ftl.Placeable(exp))
         else:
             raise ValueError(f"Conversion to Fluent not supported: {el}")
     return ftl.Pattern(elements)
-- 
2.43.0


From 04884c7d4e4637c07e0e2239cc7e2485607eb1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:00 +0000
Subject: [PATCH 047/141] fix: use Fluent number literals only for valid
 numbers

---
 python/moz/l10n/formats/fluent/serialize.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/python/moz/l10n/formats/fluent/serialize.py b/python/moz/l10n/formats/fluent/serialize.py
index 95435c2..75b19b0 100644
--- a/python/moz/l10n/formats/fluent/serialize.py
+++ b/python/moz/l10n/formats/fluent/serialize.py
@@ -39,6 +39,7 @@ from ...model import (
 
 identifier_re = compile(r"[a-zA-Z][a-zA-Z0-9_-]*")
 function_re = compile(r"[A-Z][A-Z0-9_-]*")
+number_re = compile(r"-?[0-9]+(\.[0-9]+)?")
 
 ws_at_start = compile(r"\s+")
 ws_at_end = compile(r"\s+$")
@@ -371,13 +372,11 @@ def variant_key(
     key: str | CatchallKey, other: str
 ) -> ftl.NumberLiteral | ftl.Identifier:
     kv = str(key) or other
-    try:
-        float(kv)
+    if number_re.fullmatch(kv):
         return ftl.NumberLiteral(kv)
-    except Exception:
-        if identifier_re.fullmatch(kv):
-            return ftl.Identifier(kv)
-        raise ValueError(f"Unsupported variant key: {kv}")
+    if identifier_re.fullmatch(kv):
+        return ftl.Identifier(kv)
+    raise ValueError(f"Unsupported variant key: {kv}")
 
 
 def flat_pattern(
@@ -537,15 +536,15 @@ esc_cc = {n: f"\\u{n:04X}" for r in (range(0, 32), range(127, 160)) for n in r}
 esc_bs = compile(r'([\\"])')
 
 
+def string(val: str) -> ftl.StringLiteral:
+    return ftl.StringLiteral(esc_bs.sub(r"\\\1", val).translate(esc_cc))
+
+
 def value(
     decl: dict[str, Expression], val: str | VariableRef, decl_name: str = ""
 ) -> ftl.InlineExpression:
     if isinstance(val, str):
-        try:
-            float(val)
-            return ftl.NumberLiteral(val)
-        except Exception:
-            return ftl.StringLiteral(esc_bs.sub(r"\\\1", val).translate(esc_cc))
+        return ftl.NumberLiteral(val) if number_re.fullmatch(val) else string(val)
     elif val.name != decl_name and val.name in decl:
         return expression(decl, decl[val.name], val.name)
     else:
-- 
2.43.0


From e8edfef0cd5d1c12232fac12aa4b95ec76f2ee7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:02 +0000
Subject: [PATCH 048/141] fix: keep numerical string literals as strings in
 Fluent

---
 python/moz/l10n/formats/fluent/serialize.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/fluent/serialize.py b/python/moz/l10n/formats/fluent/serialize.py
index 75b19b0..43f6861 100644
--- a/python/moz/l10n/formats/fluent/serialize.py
+++ b/python/moz/l10n/formats/fluent/serialize.py
@@ -456,7 +456,11 @@ def text(source: str, escape_syntax: bool) -> list[ftl.TextElement | ftl.Placeab
 def expression(
     decl: dict[str, Expression], expr: Expression, decl_name: str = ""
 ) -> ftl.InlineExpression:
-    arg = value(decl, expr.arg, decl_name) if expr.arg is not None else None
+    arg: ftl.InlineExpression | None
+    if isinstance(expr.arg, str) and expr.function in (None, "string"):
+        arg = string(expr.arg)
+    else:
+        arg = value(decl, expr.arg, decl_name) if expr.arg is not None else None
     if expr.function:
         return function_ref(decl, arg, expr)
     if arg:
-- 
2.43.0


From be7bcd1f9e4acdc518ac22cb37ca5b24e16b93a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:03 +0000
Subject: [PATCH 049/141] fix: retain Fluent functions named MESSAGE and STRING

---
 python/moz/l10n/formats/fluent/serialize.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/formats/fluent/serialize.py b/python/moz/l10n/formats/fluent/serialize.py
index 43f6861..fe2c336 100644
--- a/python/moz/l10n/formats/fluent/serialize.py
+++ b/python/moz/l10n/formats/fluent/serialize.py
@@ -486,7 +486,9 @@ def function_ref(
 
     function = cast(str, expr.function)
     ftl_name = expr.attributes.get("fluent-fn", None)
-    if function == "string":
+    if ftl_name and function in ("message", "string"):
+        pass  # An actual Fluent function
+    elif function == "string":
         if not arg:
             raise ValueError("Argument required for :string")
         if named:
@@ -505,7 +507,7 @@ def function_ref(
                 ftl_name = "NUMBER"
             else:
                 return arg
-    if function == "message":
+    if function == "message" and not ftl_name:
         if not isinstance(arg, ftl.Literal):
             raise ValueError(
                 "Message and term references must have a literal message identifier"
-- 
2.43.0


From 5750b0fbd99a653b1c69437596c7cfd6ddd26b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:45 +0000
Subject: [PATCH 050/141] fix: join adjacent text parts of Fluent patterns

---
 python/moz/l10n/formats/fluent/serialize.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/formats/fluent/serialize.py b/python/moz/l10n/formats/fluent/serialize.py
index fe2c336..34ae428 100644
--- a/python/moz/l10n/formats/fluent/serialize.py
+++ b/python/moz/l10n/formats/fluent/serialize.py
@@ -383,8 +383,14 @@ def flat_pattern(
     decl: dict[str, Expression], pattern: Pattern, escape_syntax: bool
 ) -> ftl.Pattern:
     elements: list[ftl.TextElement | ftl.Placeable] = []
-    last = len(pattern) - 1
-    for idx, el in enumerate(pattern):
+    parts: Pattern = []
+    for el in pattern:
+        if isinstance(el, str) and parts and isinstance(parts[-1], str):
+            parts[-1] += el
+        elif el != "":
+            parts.append(el)
+    last = len(parts) - 1
+    for idx, el in enumerate(parts):
         if isinstance(el, str):
             if idx == 0:
                 ws = ws_at_start.match(el)
-- 
2.43.0


From a57b371377ef58ae0133f5595e30848ac9f7466a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:46 +0000
Subject: [PATCH 051/141] fix: escape Fluent text that would not be parsed back
 as itself

---
 python/moz/l10n/formats/fluent/serialize.py | 46 +++++++++++++++++----
 1 file changed, 37 insertions(+), 9 deletions(-)

diff --git a/python/moz/l10n/formats/fluent/serialize.py b/python/moz/l10n/formats/fluent/serialize.py
index 34ae428..ef59e4d 100644
--- a/python/moz/l10n/formats/fluent/serialize.py
+++ b/python/moz/l10n/formats/fluent/serialize.py
@@ -290,7 +290,9 @@ def fluent_astify_message(
 
     if isinstance(message, (str, PatternMessage)):
         pattern = (
-            ftl.Pattern(text(message, escape_syntax))
+            ftl.Pattern(escape_first_char(text(message, True)))
+            if isinstance(message, str) and escape_syntax
+            else ftl.Pattern(text(message, False))
             if isinstance(message, str)
             else flat_pattern(message.declarations, message.pattern, escape_syntax)
         )
@@ -416,7 +418,29 @@ def flat_pattern(
             elements.append(ftl.Placeable(exp))
         else:
             raise ValueError(f"Conversion to Fluent not supported: {el}")
-    return ftl.Pattern(elements)
+    return ftl.Pattern(escape_first_char(elements) if escape_syntax else elements)
+
+
+def escape_first_char(
+    elements: list[ftl.TextElement | ftl.Placeable],
+) -> list[ftl.TextElement | ftl.Placeable]:
+    """
+    Multiline patterns need to start on a line of their own.
+    """
+    first = elements[0] if elements else None
+    if isinstance(first, ftl.TextElement) and any(
+        isinstance(el, ftl.TextElement) and "\n" in el.value for el in elements
+    ):
+        start = first.value.lstrip()
+        if start.startswith(("[", ".", "*")):
+            ws = first.value[: -len(start)]
+            return [
+                *([ftl.TextElement(ws)] if ws else []),
+                ftl.Placeable(ftl.StringLiteral(start[0])),
+                *([ftl.TextElement(start[1:])] if len(start) > 1 else []),
+                *elements[1:],
+            ]
+    return elements
 
 
 def pattern_is_empty(pattern: ftl.Pattern) -> bool:
@@ -438,7 +462,9 @@ def valid_empty_pattern(pattern: ftl.Pattern) -> ftl.Pattern:
     return ftl.Pattern([ftl.Placeable(value({}, empty_text))])
 
 
-not_text = compile(r"[{}]+|\n *[*.[]")
+not_text = compile(
+    r"\n *([*.[])|([{}]+|(?<=\n) +(?=\n)|[\r\v\f\x1c-\x1e\x85\u2028\u2029]+)"
+)
 
 
 def text(source: str, escape_syntax: bool) -> list[ftl.TextElement | ftl.Placeable]:
@@ -447,12 +473,10 @@ def text(source: str, escape_syntax: bool) -> list[ftl.TextElement | ftl.Placeab
     elements: list[ftl.TextElement | ftl.Placeable] = []
     idx = 0
     for m in not_text.finditer(source):
-        start = m.start()
-        esc = m[0].lstrip()
-        start += len(m[0]) - len(esc)
+        start = m.start(m.lastindex or 0)
         if start > idx:
             elements.append(ftl.TextElement(source[idx:start]))
-        elements.append(ftl.Placeable(ftl.StringLiteral(esc)))
+        elements.append(ftl.Placeable(string(source[start : m.end()])))
         idx = m.end()
     if idx < len(source):
         elements.append(ftl.TextElement(source[idx:]))
@@ -543,8 +567,12 @@ def function_ref(
     return ftl.FunctionReference(ftl.Identifier(ftl_name), args)
 
 
-# Non-printable ASCII C0 & C1 / Unicode Cc characters
-esc_cc = {n: f"\\u{n:04X}" for r in (range(0, 32), range(127, 160)) for n in r}
+# Non-printable ASCII C0 & C1 / Unicode Cc characters, and line separators
+esc_cc = {
+    n: f"\\u{n:04X}"
+    for r in (range(0, 32), range(127, 160), range(0x2028, 0x202A))
+    for n in r
+}
 esc_bs = compile(r'([\\"])')
 
 
-- 
2.43.0


From 7fe8e34c07edab960e3aecc3ca0b373c2d418518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:47 +0000
Subject: [PATCH 052/141] fix: serialize empty variants of Fluent selects

---
 python/moz/l10n/formats/fluent/serialize.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/fluent/serialize.py b/python/moz/l10n/formats/fluent/serialize.py
index ef59e4d..43c5ae1 100644
--- a/python/moz/l10n/formats/fluent/serialize.py
+++ b/python/moz/l10n/formats/fluent/serialize.py
@@ -310,7 +310,7 @@ def fluent_astify_message(
     # We rely on the variants being in order, so that a variant with N keys
     # will be next to all other variants for which the first N-1 keys are equal.
     variants = [
-        (list(keys), flat_pattern(message.declarations, value, escape_syntax))
+        (list(keys), valid_variant(message.declarations, value, escape_syntax))
         for keys, value in message.variants.items()
     ]
 
@@ -443,6 +443,13 @@ def escape_first_char(
     return elements
 
 
+def valid_variant(
+    decl: dict[str, Expression], pattern: Pattern, escape_syntax: bool
+) -> ftl.Pattern:
+    res = flat_pattern(decl, pattern, escape_syntax)
+    return valid_empty_pattern(res) if pattern_is_empty(res) else res
+
+
 def pattern_is_empty(pattern: ftl.Pattern) -> bool:
     return all(
         isinstance(el, ftl.TextElement) and (el.value == "" or el.value.isspace())
-- 
2.43.0


From 4b415946e8f3796b1e1eb571aa9848eddd5a89da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:48 +0000
Subject: [PATCH 053/141] fix: group the variants of Fluent selects, and
 require defaults for them

---
 python/moz/l10n/formats/fluent/serialize.py | 26 ++++++++++++---------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/python/moz/l10n/formats/fluent/serialize.py b/python/moz/l10n/formats/fluent/serialize.py
index 43c5ae1..eeb26c4 100644
--- a/python/moz/l10n/formats/fluent/serialize.py
+++ b/python/moz/l10n/formats/fluent/serialize.py
@@ -307,8 +307,8 @@ def fluent_astify_message(
     # building select expressions for each selector starting from the last one
     # until this list has only one entry `[[], pattern]`.
     #
-    # We rely on the variants being in order, so that a variant with N keys
-    # will be next to all other variants for which the first N-1 keys are equal.
+    # A variant with N keys is joined with all other variants
+    # for which the first N-1 keys are equal.
     variants = [
         (list(keys), valid_variant(message.declarations, value, escape_syntax))
         for keys, value in message.variants.items()
@@ -330,23 +330,29 @@ def fluent_astify_message(
             isinstance(selector, ftl.TermReference) and not selector.attribute
         ):
             raise ValueError("Messages and terms are not supported as selectors")
-        base_keys = []
-        sel_exp = None
+        groups: dict[tuple[str | CatchallKey, ...], ftl.SelectExpression] = {}
+        names = {keys[-1] for keys, _ in variants if isinstance(keys[-1], str)}
         i = 0
         while i < len(variants):
             keys, pattern = variants[i]
             key = keys.pop()  # Ultimately modifies keys0
+            is_default = isinstance(key, CatchallKey)
+            key_name = other if is_default and str(key) in names else str(key)
             ftl_variant = ftl.Variant(
-                variant_key(key, other), pattern, isinstance(key, CatchallKey)
+                variant_key(key_name, other), pattern, is_default
             )
-            if sel_exp and keys == base_keys:
+            sel_exp = groups.get(tuple(keys))
+            if sel_exp:
                 sel_exp.variants.append(ftl_variant)
                 variants.pop(i)
             else:
-                base_keys = keys
                 sel_exp = ftl.SelectExpression(selector.clone(), [ftl_variant])
+                groups[tuple(keys)] = sel_exp
                 variants[i] = (keys, ftl.Pattern([ftl.Placeable(sel_exp)]))
                 i += 1
+        for sel_exp in groups.values():
+            if not any(ftl_variant.default for ftl_variant in sel_exp.variants):
+                raise ValueError("Fluent selects require a default variant")
     if len(variants) != 1:
         raise ValueError(f"Error resolving select message variants (n={len(variants)})")
     return variants[0][1]
@@ -370,10 +376,8 @@ def fallback_name(message: SelectMessage) -> str:
     return key
 
 
-def variant_key(
-    key: str | CatchallKey, other: str
-) -> ftl.NumberLiteral | ftl.Identifier:
-    kv = str(key) or other
+def variant_key(key: str, other: str) -> ftl.NumberLiteral | ftl.Identifier:
+    kv = key or other
     if number_re.fullmatch(kv):
         return ftl.NumberLiteral(kv)
     if identifier_re.fullmatch(kv):
-- 
2.43.0


From 39d31d1ea22695d07b65e83e89c0d0d3415ffaad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:49 +0000
Subject: [PATCH 054/141] fix: do not drop Fluent resource metadata following
 an info field

---
 python/moz/l10n/formats/fluent/serialize.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/python/moz/l10n/formats/fluent/serialize.py b/python/moz/l10n/formats/fluent/serialize.py
index eeb26c4..68f233d 100644
--- a/python/moz/l10n/formats/fluent/serialize.py
+++ b/python/moz/l10n/formats/fluent/serialize.py
@@ -113,15 +113,16 @@ def fluent_astify(
             return ""
         cs = node.comment.rstrip()
         if not isinstance(node, Comment) and node.meta:
-            if not serialize_metadata:
-                raise ValueError("Metadata requires serialize_metadata parameter")
-            for field in node.meta:
+            for idx, field in enumerate(node.meta):
                 if (
                     isinstance(node, Resource)
+                    and idx == 0
                     and field.key == "info"
-                    and field == node.meta[0]
+                    and isinstance(field.value, str)
                 ):
                     continue
+                if not serialize_metadata:
+                    raise ValueError("Metadata requires serialize_metadata parameter")
                 meta_str = serialize_metadata(field)
                 if meta_str:
                     ms = meta_str.strip("\n")
@@ -138,9 +139,7 @@ def fluent_astify(
         and res_info.value
     ):
         body.append(ftl.Comment(res_info.value))
-        res_comment = resource.comment.rstrip()
-    else:
-        res_comment = comment_str(resource)
+    res_comment = comment_str(resource)
     if res_comment:
         body.append(ftl.ResourceComment(res_comment))
     for idx, section in enumerate(resource.sections):
-- 
2.43.0


From a16d4a4569deed6dca673f767a32031517cd0878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:50 +0000
Subject: [PATCH 055/141] fix: refuse Fluent patterns with unparsed content

---
 python/moz/l10n/formats/fluent/parse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/moz/l10n/formats/fluent/parse.py b/python/moz/l10n/formats/fluent/parse.py
index 390537d..ab08d47 100644
--- a/python/moz/l10n/formats/fluent/parse.py
+++ b/python/moz/l10n/formats/fluent/parse.py
@@ -175,6 +175,8 @@ def fluent_parse_message(source: str) -> Message:
         ftl_pattern = parser.get_pattern(ps, is_block=False)
     except ParseError as err:
         raise ValueError(err.message or "Fluent parser error") from err
+    if ps.string[ps.index :].strip():
+        raise ValueError("Fluent parser error: unexpected content after pattern")
     return message(ftl_pattern)
 
 
-- 
2.43.0


From 811a53a5c16fbaa88018a64ed95c1c79e0d636bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:06 +0000
Subject: [PATCH 056/141] fix: refuse empty variant keys in Fluent

---
 python/moz/l10n/formats/fluent/serialize.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/python/moz/l10n/formats/fluent/serialize.py b/python/moz/l10n/formats/fluent/serialize.py
index 68f233d..d142cf9 100644
--- a/python/moz/l10n/formats/fluent/serialize.py
+++ b/python/moz/l10n/formats/fluent/serialize.py
@@ -336,10 +336,10 @@ def fluent_astify_message(
             keys, pattern = variants[i]
             key = keys.pop()  # Ultimately modifies keys0
             is_default = isinstance(key, CatchallKey)
-            key_name = other if is_default and str(key) in names else str(key)
-            ftl_variant = ftl.Variant(
-                variant_key(key_name, other), pattern, is_default
-            )
+            key_name = str(key)
+            if is_default and (not key_name or key_name in names):
+                key_name = other
+            ftl_variant = ftl.Variant(variant_key(key_name), pattern, is_default)
             sel_exp = groups.get(tuple(keys))
             if sel_exp:
                 sel_exp.variants.append(ftl_variant)
@@ -375,8 +375,7 @@ def fallback_name(message: SelectMessage) -> str:
     return key
 
 
-def variant_key(key: str, other: str) -> ftl.NumberLiteral | ftl.Identifier:
-    kv = key or other
+def variant_key(kv: str) -> ftl.NumberLiteral | ftl.Identifier:
     if number_re.fullmatch(kv):
         return ftl.NumberLiteral(kv)
     if identifier_re.fullmatch(kv):
-- 
2.43.0


From f87cf80cc05f44f2a24de34dc35b906a838b4013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:13 +0000
Subject: [PATCH 057/141] fix: accept only valid MF2 number literals

---
 python/moz/l10n/formats/mf2/validate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/mf2/validate.py b/python/moz/l10n/formats/mf2/validate.py
index d379ace..d875512 100644
--- a/python/moz/l10n/formats/mf2/validate.py
+++ b/python/moz/l10n/formats/mf2/validate.py
@@ -32,7 +32,7 @@ from ...model import (
 _name_start = r"a-zA-Z_\xC0-\xD6\xD8-\xF6\xF8-\u02FF\u0370-\u037D\u037F-\u061B\u061D-\u1FFF\u200C-\u200D\u2070-\u218F\u2C00-\u2FEF\u3001-\uD7FF\uF900-\uFDCF\uFDF0-\uFFFC\U00010000-\U000EFFFF"
 name_re = compile(f"[{_name_start}][{_name_start}0-9-.\xb7\u0300-\u036f\u203f-\u2040]*")
 identifier_re = compile(f"{name_re.pattern}(?::{name_re.pattern})?")
-number_re = compile(r"-?(?:0|(?:[1-9]\d*))(?:.\d+)?(?:[eE][-+]?\d+)?")
+number_re = compile(r"-?(?:0|(?:[1-9][0-9]*))(?:\.[0-9]+)?(?:[eE][-+]?[0-9]+)?")
 
 
 class MF2ValidationError(ValueError):
-- 
2.43.0


From 1246e4922d0fa34a7bbf8d0925bb988f9c288365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:14 +0000
Subject: [PATCH 058/141] fix: require a space between an MF2 literal and
 function

---
 python/moz/l10n/formats/mf2/message_parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/mf2/message_parser.py b/python/moz/l10n/formats/mf2/message_parser.py
index 95b5735..6f69d52 100644
--- a/python/moz/l10n/formats/mf2/message_parser.py
+++ b/python/moz/l10n/formats/mf2/message_parser.py
@@ -264,7 +264,9 @@ class MF2Parser:
             arg_end = self.pos
             ch = self.skip_opt_space()
         if ch == ":":
-            if arg and self.pos == arg_end:
+            if arg is not None and not any(
+                ch in space_chars for ch in self.source[arg_end : self.pos]
+            ):
                 raise MF2ParseError(self, "Expected space")
             function = self.identifier(1)
             options = self.options()
-- 
2.43.0


From 17b6bb22802e9c5188e324f74885b5869e0cb6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:15 +0000
Subject: [PATCH 059/141] fix: reject a trailing backslash in MF2

---
 python/moz/l10n/formats/mf2/message_parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/moz/l10n/formats/mf2/message_parser.py b/python/moz/l10n/formats/mf2/message_parser.py
index 6f69d52..599e83e 100644
--- a/python/moz/l10n/formats/mf2/message_parser.py
+++ b/python/moz/l10n/formats/mf2/message_parser.py
@@ -242,6 +242,8 @@ class MF2Parser:
             else:
                 text += ch
             self.pos += 1
+        if at_esc:
+            raise MF2ParseError(self, "Incomplete escape")
         return text
 
     def expression_or_markup(self) -> Expression | Markup:
-- 
2.43.0


From 8c2fc5de321dd9a7dae99c868e440075704990ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:16 +0000
Subject: [PATCH 060/141] fix: allow bidi characters between an MF2 key and
 pattern

---
 python/moz/l10n/formats/mf2/message_parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/moz/l10n/formats/mf2/message_parser.py b/python/moz/l10n/formats/mf2/message_parser.py
index 599e83e..f944fcb 100644
--- a/python/moz/l10n/formats/mf2/message_parser.py
+++ b/python/moz/l10n/formats/mf2/message_parser.py
@@ -199,6 +199,7 @@ class MF2Parser:
                 self,
                 f"Variant key mismatch, expected {num_sel} but found {len(keys)}",
             )
+        self.skip_opt_space()
         return tuple(keys), self.quoted_pattern()
 
     def quoted_pattern(self) -> Pattern:
-- 
2.43.0


From cc92311ebc495105f3213d2df7f2c6a50881495c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:17 +0000
Subject: [PATCH 061/141] fix: serialize empty MF2 literals

---
 python/moz/l10n/formats/mf2/serialize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/formats/mf2/serialize.py b/python/moz/l10n/formats/mf2/serialize.py
index 1c90c29..595b365 100644
--- a/python/moz/l10n/formats/mf2/serialize.py
+++ b/python/moz/l10n/formats/mf2/serialize.py
@@ -103,10 +103,10 @@ def _quoted_pattern(pattern: Pattern) -> Iterator[str]:
 
 def _expression(expr: Expression) -> Iterator[str]:
     yield "{"
-    if expr.arg:
+    if expr.arg is not None:
         yield _value(expr.arg)
     if expr.function:
-        yield f" :{expr.function}" if expr.arg else f":{expr.function}"
+        yield f":{expr.function}" if expr.arg is None else f" :{expr.function}"
     yield from _options(expr.options)
     yield from _attributes(expr.attributes)
     yield "}"
-- 
2.43.0


From 0dc535c9ef3a23fd6d3c712c3b9b5f01ac060ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:18 +0000
Subject: [PATCH 062/141] fix: quote all MF2 patterns that would be parsed as
 complex messages

---
 python/moz/l10n/formats/mf2/serialize.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/python/moz/l10n/formats/mf2/serialize.py b/python/moz/l10n/formats/mf2/serialize.py
index 595b365..6276921 100644
--- a/python/moz/l10n/formats/mf2/serialize.py
+++ b/python/moz/l10n/formats/mf2/serialize.py
@@ -30,7 +30,9 @@ from ...model import (
 )
 from .validate import name_re, number_re
 
-complex_start_re = compile(r"[\t\n\r \u3000]*\.")
+complex_start_re = compile(
+    r"[\t\n\r \u3000\u061c\u200e\u200f\u2066-\u2069]*\."
+)
 literal_esc_re = compile(r"[\\|]")
 text_esc_re = compile(r"[\\{}]")
 
@@ -42,17 +44,10 @@ def mf2_serialize_message(message: Message) -> str:
     Does not validate the message before serialization;
     for that, use `mf2_validate_message()`.
     """
-    if (
-        isinstance(message, PatternMessage)
-        and not message.declarations
-        and (
-            not message.pattern
-            or not isinstance(part0 := message.pattern[0], str)
-            or not complex_start_re.match(part0)
-        )
-    ):
-        # simple message
-        return "".join(mf2_serialize_pattern(message.pattern))
+    if isinstance(message, PatternMessage) and not message.declarations:
+        simple = "".join(mf2_serialize_pattern(message.pattern))
+        if not complex_start_re.match(simple):
+            return simple
 
     res = ""
     for name, expr in message.declarations.items():
-- 
2.43.0


From 63f69ac442cdec8b9d8172cf64a28e210fd8f856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:19 +0000
Subject: [PATCH 063/141] fix: order MF2 declarations by their dependencies

---
 python/moz/l10n/formats/mf2/validate.py | 44 +++++++++----------------
 1 file changed, 15 insertions(+), 29 deletions(-)

diff --git a/python/moz/l10n/formats/mf2/validate.py b/python/moz/l10n/formats/mf2/validate.py
index d875512..984b19a 100644
--- a/python/moz/l10n/formats/mf2/validate.py
+++ b/python/moz/l10n/formats/mf2/validate.py
@@ -15,7 +15,6 @@
 from __future__ import annotations
 
 from collections.abc import Iterable, Mapping
-from functools import cmp_to_key
 from re import compile
 from typing import Literal
 
@@ -95,28 +94,9 @@ def mf2_validate_message(msg: PatternMessage | SelectMessage) -> None:
 
 
 def _validate_declarations(declarations: dict[str, Expression]) -> None:
-    decl_data: list[tuple[str, bool]] = []
+    decl_data: list[tuple[bool, str]] = []
     dependencies: dict[str, set[str]] = {}
 
-    def deep_dependencies(name: str, res: set[str]) -> set[str]:
-        if name in dependencies:
-            for dep in dependencies[name]:
-                if dep not in res:
-                    res.add(dep)
-                    deep_dependencies(dep, res)
-        return res
-
-    def cmp_decl_data(a: tuple[str, bool], b: tuple[str, bool]) -> int:
-        a_name, a_input = a
-        b_name, b_input = b
-        if a_name in dependencies[b_name]:
-            return -1
-        if b_name in dependencies[a_name]:
-            return 1
-        if a_input != b_input:
-            return -1 if a_input else 1
-        return -1 if a_name < b_name else 1
-
     if not isinstance(declarations, Mapping):
         raise MF2ValidationError(f"Invalid declarations: {declarations}")
     for name, expr in declarations.items():
@@ -127,7 +107,7 @@ def _validate_declarations(declarations: dict[str, Expression]) -> None:
         _validate_expression(expr)
         var_name = expr.arg.name if isinstance(expr.arg, VariableRef) else None
         is_input = var_name == name
-        decl_data.append((name, is_input))
+        decl_data.append((not is_input, name))
         deps: set[str] = set()
         if var_name is not None and not is_input:
             deps.add(var_name)
@@ -136,15 +116,21 @@ def _validate_declarations(declarations: dict[str, Expression]) -> None:
                 deps.add(opt.name)
         dependencies[name] = deps
 
-    for name in dependencies:
-        deps = deep_dependencies(name, set())
-        if name in deps:
-            raise MF2ValidationError(f"Duplicate declaration for ${name}")
-        dependencies[name] = deps
+    # Dependencies first, otherwise .input before .local, and then by name
+    decl_data.sort()
+    order: list[str] = []
+    while decl_data:
+        for data in decl_data:
+            if dependencies[data[1]].isdisjoint(dependencies):
+                break
+        else:
+            raise MF2ValidationError(f"Duplicate declaration for ${decl_data[0][1]}")
+        decl_data.remove(data)
+        del dependencies[data[1]]
+        order.append(data[1])
 
     if len(declarations) > 1:
-        decl_data.sort(key=cmp_to_key(cmp_decl_data))
-        inserts = [(name, declarations.pop(name)) for name, _ in decl_data[1:]]
+        inserts = [(name, declarations.pop(name)) for name in order[1:]]
         for name, expr in inserts:
             declarations[name] = expr
 
-- 
2.43.0


From cf2978835d2e174d1b64c6c28396b7d0954fc3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:04 +0000
Subject: [PATCH 064/141] fix: reject NUL characters when validating MF2
 messages

---
 python/moz/l10n/formats/mf2/validate.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/python/moz/l10n/formats/mf2/validate.py b/python/moz/l10n/formats/mf2/validate.py
index 984b19a..942b0e5 100644
--- a/python/moz/l10n/formats/mf2/validate.py
+++ b/python/moz/l10n/formats/mf2/validate.py
@@ -80,7 +80,7 @@ def mf2_validate_message(msg: PatternMessage | SelectMessage) -> None:
             if not isinstance(keys, tuple):
                 raise MF2ValidationError(f"Invalid keys: {keys}")
             for key in keys:
-                if not isinstance(key, str) and not isinstance(key, CatchallKey):
+                if not _is_literal(key) and not isinstance(key, CatchallKey):
                     raise MF2ValidationError(f"Invalid key: {key}")
             if len(keys) != sel_count:
                 raise MF2ValidationError(
@@ -143,14 +143,19 @@ def _validate_pattern(pattern: Pattern) -> None:
             _validate_expression(part)
         elif isinstance(part, Markup):
             _validate_markup(part)
-        elif not isinstance(part, str):
+        elif not _is_literal(part):
             raise MF2ValidationError(f"Invalid pattern part: {part}")
 
 
+def _is_literal(value: object) -> bool:
+    """Text and literals may contain any characters except for NUL."""
+    return isinstance(value, str) and "\x00" not in value
+
+
 def _validate_expression(expr: Expression) -> None:
     if isinstance(expr.arg, VariableRef):
         _validate_variable(expr.arg)
-    elif expr.arg is not None and not isinstance(expr.arg, str):
+    elif expr.arg is not None and not _is_literal(expr.arg):
         raise MF2ValidationError(f"Invalid expression operand: {expr.arg}")
     if expr.function is None:
         if expr.arg is None:
@@ -183,7 +188,7 @@ def _validate_options(options: dict[str, str | VariableRef]) -> None:
             raise MF2ValidationError(f"Invalid option name: {name}")
         if isinstance(value, VariableRef):
             _validate_variable(value)
-        elif not isinstance(value, str):
+        elif not _is_literal(value):
             raise MF2ValidationError(f"Invalid option value: {value}")
 
 
@@ -193,7 +198,7 @@ def _validate_attributes(attributes: dict[str, str | Literal[True]]) -> None:
     for name, value in attributes.items():
         if not isinstance(name, str) or not identifier_re.fullmatch(name):
             raise MF2ValidationError(f"Invalid attribute name: {name}")
-        elif value is not True and not isinstance(value, str):
+        elif value is not True and not _is_literal(value):
             raise MF2ValidationError(f"Invalid option value: {value}")
 
 
-- 
2.43.0


From 3c24aee3142123b4e7919907a86207005b149f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:05 +0000
Subject: [PATCH 065/141] fix: validate the options of MF2 expressions with no
 function

---
 python/moz/l10n/formats/mf2/validate.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/moz/l10n/formats/mf2/validate.py b/python/moz/l10n/formats/mf2/validate.py
index 942b0e5..d46ac26 100644
--- a/python/moz/l10n/formats/mf2/validate.py
+++ b/python/moz/l10n/formats/mf2/validate.py
@@ -164,6 +164,7 @@ def _validate_expression(expr: Expression) -> None:
             )
         if expr.options:
             raise MF2ValidationError("Invalid expression with options but no function")
+        _validate_options(expr.options)
     elif isinstance(expr.function, str) and identifier_re.fullmatch(expr.function):
         _validate_options(expr.options)
     else:
-- 
2.43.0


From c94419c6edff87fcad9af4dcb42f97612fc96ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:51 +0000
Subject: [PATCH 066/141] fix: leave out directories matched by glob
 expressions

---
 python/moz/l10n/bin/utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/bin/utils.py b/python/moz/l10n/bin/utils.py
index a5df375..3e70a54 100644
--- a/python/moz/l10n/bin/utils.py
+++ b/python/moz/l10n/bin/utils.py
@@ -76,7 +76,12 @@ def handle_paths(
 
     elif file_paths:
         root_dir = os.getcwd()
-        path_iter = (path for fp in file_paths for path in glob(fp, recursive=True))
+        path_iter = (
+            path
+            for fp in file_paths
+            for path in glob(fp, recursive=True)
+            if not os.path.isdir(path)
+        )
 
     else:
         log.error(LOG_ERROR_CONFIG_OR_PATHS)
-- 
2.43.0


From 8d3699860b03518de0c319f16f4a38a9b4953b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:55 +0000
Subject: [PATCH 067/141] fix: do not fail format detection on contents that
 cannot be decoded

---
 python/moz/l10n/formats/__init__.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/python/moz/l10n/formats/__init__.py b/python/moz/l10n/formats/__init__.py
index f122e48..87bf621 100644
--- a/python/moz/l10n/formats/__init__.py
+++ b/python/moz/l10n/formats/__init__.py
@@ -16,7 +16,6 @@ from __future__ import annotations
 
 from enum import Enum
 from io import BytesIO
-from json import JSONDecodeError
 from os.path import splitext
 from typing import Any
 
@@ -115,7 +114,7 @@ def detect_format(name: str | None, source: bytes | str | None = None) -> Format
     if ext != ".xml":
         try:
             json, valid_json = json_linecomment_loads(source)
-        except JSONDecodeError:
+        except ValueError:  # includes JSONDecodeError and UnicodeDecodeError
             json, valid_json = None, False
         if is_object_of_strings(json):
             assert isinstance(json, dict)
-- 
2.43.0


From 638a31d25093b7c3bdfc6516428910066233179d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:56 +0000
Subject: [PATCH 068/141] fix: allow a byte order mark in JSON given as a
 string

---
 python/moz/l10n/formats/plain_json/parse.py | 2 ++
 python/moz/l10n/util/loads.py               | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/python/moz/l10n/formats/plain_json/parse.py b/python/moz/l10n/formats/plain_json/parse.py
index 0f7ce56..f0ea43f 100644
--- a/python/moz/l10n/formats/plain_json/parse.py
+++ b/python/moz/l10n/formats/plain_json/parse.py
@@ -30,6 +30,8 @@ def plain_json_parse(source: str | bytes) -> Resource[Message]:
 
     The parsed resource will not include any metadata.
     """
+    if isinstance(source, str) and source.startswith("\ufeff"):
+        source = source[1:]  # as json.loads() does for bytes
     json: dict[str, dict[str, Any]] = loads(source)
     if not isinstance(json, dict):
         raise ValueError(f"Unexpected root value: {json}")
diff --git a/python/moz/l10n/util/loads.py b/python/moz/l10n/util/loads.py
index 11fbbb1..9ad4125 100644
--- a/python/moz/l10n/util/loads.py
+++ b/python/moz/l10n/util/loads.py
@@ -28,6 +28,8 @@ def json_linecomment_loads(source: str | bytes) -> tuple[Any, bool]:
 
     Line comments // are supported in `webext` messages.json files.
     """
+    if isinstance(source, str) and source.startswith("\ufeff"):
+        source = source[1:]  # as json.loads() does for bytes
     try:
         return loads(source), True
     except JSONDecodeError:
-- 
2.43.0


From 4fb6c51c54049552c29463c70715c654d2a39ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:57 +0000
Subject: [PATCH 069/141] fix: decode gettext contents using their declared
 charset

---
 python/moz/l10n/formats/gettext/parse.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/formats/gettext/parse.py b/python/moz/l10n/formats/gettext/parse.py
index a7e9bdb..656e7dc 100644
--- a/python/moz/l10n/formats/gettext/parse.py
+++ b/python/moz/l10n/formats/gettext/parse.py
@@ -16,7 +16,7 @@ from __future__ import annotations
 
 from collections.abc import Sequence
 
-from polib import pofile
+from polib import detect_encoding, pofile
 
 from ...model import (
     CatchallKey,
@@ -61,7 +61,9 @@ def gettext_parse(
     - `flag`: separately for each flag
     - `plural`
     """
-    pf = pofile(source if isinstance(source, str) else str(source, "utf8"))
+    if not isinstance(source, str):
+        source = str(source, detect_encoding(source, binary_mode=True))
+    pf = pofile(source)
     res_comment = pf.header.lstrip("\n").rstrip()
     res_meta: list[Metadata] = [
         Metadata(key, value.strip()) for key, value in pf.metadata.items()
-- 
2.43.0


From 4a3c3da730c9a88b8fd46c349e9e3339d6c5f47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:58 +0000
Subject: [PATCH 070/141] fix: do not detect JSON with nested objects named
 message or description as webext

---
 python/moz/l10n/formats/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/__init__.py b/python/moz/l10n/formats/__init__.py
index 87bf621..a054c59 100644
--- a/python/moz/l10n/formats/__init__.py
+++ b/python/moz/l10n/formats/__init__.py
@@ -162,9 +162,12 @@ def is_webext_message(obj: Any) -> bool:
     has_message = False
     for key, value in obj.items():
         if key == "message":
+            if not isinstance(value, str):
+                return False
             has_message = True
         elif key == "description":
-            pass
+            if not isinstance(value, str):
+                return False
         elif key == "placeholders":
             if not isinstance(value, dict):
                 return False
-- 
2.43.0


From eb487ae2610b1f3e230ec42fd5588e621bdbd7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:57 +0000
Subject: [PATCH 071/141] fix: drop section and standalone comments when
 trimming comments of PO files

---
 python/moz/l10n/formats/gettext/serialize.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/moz/l10n/formats/gettext/serialize.py b/python/moz/l10n/formats/gettext/serialize.py
index fd2e847..97ed9f8 100644
--- a/python/moz/l10n/formats/gettext/serialize.py
+++ b/python/moz/l10n/formats/gettext/serialize.py
@@ -73,11 +73,11 @@ def gettext_serialize(
             nplurals = int(pm[1])
 
     for section in resource.sections:
-        if section.comment:
+        if section.comment and not trim_comments:
             raise ValueError("Section comments are not supported")
         if section.id:
             raise ValueError(f"Section identifiers not supported: {section.id}")
-        if section.meta:
+        if section.meta and not trim_comments:
             raise ValueError("Section metadata is not supported")
         for entry in section.entries:
             if isinstance(entry, Entry):
@@ -155,7 +155,7 @@ def gettext_serialize(
                 if not pe.obsolete or not trim_comments:
                     yield "\n"
                     yield pe.__unicode__(wrapwidth=wrapwidth)
-            else:
+            elif not trim_comments:
                 raise ValueError(
                     f"Standalone comments are not supported: {entry.comment}"
                 )
-- 
2.43.0


From e2df53e7c2e65aaa21e3ecaed420332459ffc3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:58 +0000
Subject: [PATCH 072/141] fix: drop metadata when trimming comments of .inc
 files

---
 python/moz/l10n/formats/inc/serialize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/inc/serialize.py b/python/moz/l10n/formats/inc/serialize.py
index dc6b961..b5cf7d2 100644
--- a/python/moz/l10n/formats/inc/serialize.py
+++ b/python/moz/l10n/formats/inc/serialize.py
@@ -41,7 +41,7 @@ def inc_serialize(
     """
 
     def comment(comment: str, meta: Any, standalone: bool) -> Iterator[str]:
-        if meta:
+        if meta and not trim_comments:
             raise ValueError("Metadata is not supported")
         if comment:
             for line in re_newline.split(comment.strip("\n")):
-- 
2.43.0


From a3c5e26f1179089b59881237d2b3522231371e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:27 +0000
Subject: [PATCH 073/141] fix: trim section comments and comments of plurals of
 XLIFF files

---
 python/moz/l10n/formats/xliff/serialize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/formats/xliff/serialize.py b/python/moz/l10n/formats/xliff/serialize.py
index 8e08d62..1f15b56 100644
--- a/python/moz/l10n/formats/xliff/serialize.py
+++ b/python/moz/l10n/formats/xliff/serialize.py
@@ -109,7 +109,7 @@ def xliff_serialize(
                 assign_metadata(parent, section.meta, trim_comments)
             prev[parent_key] = parent
         indent = 2 * len(section.id)
-        if section.comment:
+        if section.comment and not trim_comments:
             comment = etree.Comment(comment_body(section.comment, indent))
             parent.addprevious(comment)
 
@@ -250,7 +250,7 @@ def add_xliff_stringsdict_plural(
     source_entries: bool,
     trim_comments: bool,
 ) -> None:
-    if entry.comment:
+    if entry.comment and not trim_comments:
         raise ValueError(f"Unsupported comment on SelectMessage: {entry.comment}")
     msg = entry.value
     if len(msg.selectors) != 1:
-- 
2.43.0


From 99b6b8be65e7022c507e384aee568f1a90fc76a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:22 +0000
Subject: [PATCH 074/141] fix: support the current directory as root or
 reference root of path discovery

---
 python/moz/l10n/paths/discover.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/paths/discover.py b/python/moz/l10n/paths/discover.py
index d40692d..d4aed5c 100644
--- a/python/moz/l10n/paths/discover.py
+++ b/python/moz/l10n/paths/discover.py
@@ -17,8 +17,18 @@ from __future__ import annotations
 import re
 from collections.abc import Iterable, Iterator
 from itertools import chain
-from os import sep, walk
-from os.path import commonpath, dirname, isdir, join, normpath, relpath, splitext
+from os import curdir, sep, walk
+from os.path import (
+    abspath,
+    commonpath,
+    dirname,
+    isabs,
+    isdir,
+    join,
+    normpath,
+    relpath,
+    splitext,
+)
 from typing import Literal
 
 from moz.l10n.formats import l10n_extensions
@@ -104,6 +114,10 @@ class L10nDiscoverPaths:
             raise ValueError(f"Not a directory: {root}")
         if ref_root:
             ref_root = normpath(join(root, ref_root))
+        # These can't be compared with the other paths
+        if curdir in (root, ref_root) or (ref_root and isabs(ref_root) != isabs(root)):
+            root = abspath(root)
+            ref_root = abspath(ref_root) if ref_root else None
         if source_locale is None:
             source_locale = ["en-US", "en"]
         elif isinstance(source_locale, str):
-- 
2.43.0


From dd0664ccdff3ac33b8742c932223cd4367137111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:23 +0000
Subject: [PATCH 075/141] fix: only look for the target base directory within
 the discovery root

---
 python/moz/l10n/paths/discover.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/paths/discover.py b/python/moz/l10n/paths/discover.py
index d4aed5c..73109e0 100644
--- a/python/moz/l10n/paths/discover.py
+++ b/python/moz/l10n/paths/discover.py
@@ -147,7 +147,7 @@ class L10nDiscoverPaths:
                     ref_dirs[join(dirpath, dir)] = ref_dir_scores[dir]
                 elif locale_id.fullmatch(dir):
                     locale_dirs.append(dir)
-            if locale_dirs:
+            if locale_dirs and _dir_contains(root, dirpath):
                 base_dirs[dirpath] = locale_dirs
             dirnames[:] = (dn for dn in dirnames if not dn.startswith("."))
 
-- 
2.43.0


From 3dcb726dba0b6562d6708568d1311d27e91ae248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:24 +0000
Subject: [PATCH 076/141] fix: prefer the shallowest of reference directories
 with the same priority

---
 python/moz/l10n/paths/discover.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/moz/l10n/paths/discover.py b/python/moz/l10n/paths/discover.py
index 73109e0..2a943d3 100644
--- a/python/moz/l10n/paths/discover.py
+++ b/python/moz/l10n/paths/discover.py
@@ -124,7 +124,7 @@ class L10nDiscoverPaths:
             source_locale = [source_locale]
         ref_dir_scores: dict[str, int] = {
             lc_var: idx
-            for idx, lc in enumerate(source_locale)
+            for idx, lc in reversed(list(enumerate(source_locale)))
             for lc_var in locale_code_variants(lc)
         }
 
@@ -133,7 +133,7 @@ class L10nDiscoverPaths:
         base_dirs: dict[str, list[str]] = {}
         pot_dirs: list[str] = []
         l10n_dirs: list[str] = []
-        # Important! We walk with `topdown=True` to get shortest paths first!
+        # Important! We walk with `topdown=True` to filter out hidden directories.
         if ref_root and not _dir_contains(root, ref_root):
             walk_roots: Iterator[tuple[str, list[str], list[str]]] = chain(
                 walk(root, topdown=True), walk(ref_root, topdown=True)
@@ -176,7 +176,7 @@ class L10nDiscoverPaths:
         if ref_dirs_with_files:
             self._ref_root = min(
                 (rd for rd in ref_dirs.items() if rd[0] in ref_dirs_with_files),
-                key=lambda s: s[1],
+                key=lambda s: (s[1], s[0].count(sep)),
             )[0]
         else:
             raise MissingSourceDirectoryError
-- 
2.43.0


From b3f99974065e9a84cb134cd1faed05d1bdcf9fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:25 +0000
Subject: [PATCH 077/141] fix: find targets of .po files in the reference
 directory

---
 python/moz/l10n/paths/discover.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/paths/discover.py b/python/moz/l10n/paths/discover.py
index 2a943d3..6e04f7d 100644
--- a/python/moz/l10n/paths/discover.py
+++ b/python/moz/l10n/paths/discover.py
@@ -277,7 +277,7 @@ class L10nDiscoverPaths:
         If `locale` is not set, target path will include a `{locale}` variable.
         """
         ref_path = normpath(join(self._ref_root, ref_path))
-        if ref_path.endswith(".po"):
+        if ref_path.endswith(".po") and ref_path not in self.ref_paths:
             ref_path += "t"
         if ref_required and ref_path not in self.ref_paths:
             return None, ()
-- 
2.43.0


From 17c6b9af9bef1e38845dcd2978b263a2494ad3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:26 +0000
Subject: [PATCH 078/141] fix: do not take braces in discovered paths for
 format fields

---
 python/moz/l10n/paths/discover.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/paths/discover.py b/python/moz/l10n/paths/discover.py
index 6e04f7d..f9a024a 100644
--- a/python/moz/l10n/paths/discover.py
+++ b/python/moz/l10n/paths/discover.py
@@ -293,7 +293,7 @@ class L10nDiscoverPaths:
 
     def format_target_path(self, target: str, locale: str) -> str:
         locale = _locale_dirname(self._base(), locale, self.locale_dir_sep)
-        return normpath(target.format(locale=locale))
+        return normpath(target.replace("{locale}", locale))
 
     def find_reference(self, target: str) -> tuple[str, dict[str, str]] | None:
         """
-- 
2.43.0


From 0e8542570ae8627b50284417f6910582a7cc2f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:27 +0000
Subject: [PATCH 079/141] fix: support reference roots above the current
 directory in path discovery

---
 python/moz/l10n/paths/discover.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/python/moz/l10n/paths/discover.py b/python/moz/l10n/paths/discover.py
index f9a024a..13c744b 100644
--- a/python/moz/l10n/paths/discover.py
+++ b/python/moz/l10n/paths/discover.py
@@ -17,7 +17,7 @@ from __future__ import annotations
 import re
 from collections.abc import Iterable, Iterator
 from itertools import chain
-from os import curdir, sep, walk
+from os import curdir, pardir, sep, walk
 from os.path import (
     abspath,
     commonpath,
@@ -115,9 +115,16 @@ class L10nDiscoverPaths:
         if ref_root:
             ref_root = normpath(join(root, ref_root))
         # These can't be compared with the other paths
-        if curdir in (root, ref_root) or (ref_root and isabs(ref_root) != isabs(root)):
+        if root == curdir:
             root = abspath(root)
-            ref_root = abspath(ref_root) if ref_root else None
+        if ref_root and (
+            isabs(ref_root) != isabs(root)
+            or ref_root == curdir
+            or pardir in root.split(sep)
+            or pardir in ref_root.split(sep)
+        ):
+            root = abspath(root)
+            ref_root = abspath(ref_root)
         if source_locale is None:
             source_locale = ["en-US", "en"]
         elif isinstance(source_locale, str):
-- 
2.43.0


From 5cc1d86af9ee43759e2c321a8a6cff67863dc705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:51 +0000
Subject: [PATCH 080/141] fix: resolve relative base paths of configs

---
 python/moz/l10n/paths/config.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/moz/l10n/paths/config.py b/python/moz/l10n/paths/config.py
index d639850..cf60389 100644
--- a/python/moz/l10n/paths/config.py
+++ b/python/moz/l10n/paths/config.py
@@ -19,7 +19,7 @@ from collections import defaultdict
 from collections.abc import Callable, Iterator
 from glob import glob
 from os import sep
-from os.path import dirname, isfile, join, normpath, relpath
+from os.path import abspath, dirname, isfile, join, normpath, relpath
 from re import Pattern, compile
 from typing import Any, cast
 
@@ -122,7 +122,7 @@ class L10nConfigPaths:
         self._cfg_path = cfg_path
         self._locale_map = {**_DEFAULT_LOCALE_MAP, **(locale_map or {})}
         base = toml.get("basepath", ".")
-        self._base = normpath(join(dirname(cfg_path), base))
+        self._base = abspath(join(dirname(cfg_path), base))
         self._ref_root = self._base
         self._locales: list[str] | None = toml.get("locales", None)
         env = toml.get("env", None)
@@ -214,7 +214,7 @@ class L10nConfigPaths:
     def base(self, base: str) -> None:
         for incl in self._includes:
             incl.base = base
-        self._base = base
+        self._base = abspath(base)
 
     @property
     def locales(self) -> list[str] | None:
-- 
2.43.0


From 615c261275b94c7858f8658d43ccfb0423959549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:52 +0000
Subject: [PATCH 081/141] fix: escape special characters of config paths, and
 match repeated variables, . and .. parts, and .pot targets

---
 python/moz/l10n/paths/config.py | 53 +++++++++++++++++++++++----------
 1 file changed, 37 insertions(+), 16 deletions(-)

diff --git a/python/moz/l10n/paths/config.py b/python/moz/l10n/paths/config.py
index cf60389..a86e85a 100644
--- a/python/moz/l10n/paths/config.py
+++ b/python/moz/l10n/paths/config.py
@@ -20,7 +20,7 @@ from collections.abc import Callable, Iterator
 from glob import glob
 from os import sep
 from os.path import abspath, dirname, isfile, join, normpath, relpath
-from re import Pattern, compile
+from re import Pattern, compile, escape
 from typing import Any, cast
 
 from .android_locale import get_android_locale
@@ -32,6 +32,7 @@ else:
 
 path_stars = compile(r"[*](?:[*](?:[/\\][*]*)?)?")
 path_var = compile(r"{(\w+)}")
+path_token = compile(rf"({path_stars.pattern})|{path_var.pattern}")
 
 _DEFAULT_LOCALE_MAP: dict[str, Callable[[str], str]] = {
     "locale": lambda locale: locale,
@@ -49,21 +50,36 @@ These are applied by `L10nConfigPaths` unless overridden via `locale_map`.
 """
 
 
-def path_regex(path: str) -> Pattern[str]:
+def path_regex(path: str, *, with_vars: bool = True) -> Pattern[str]:
     """
     Captures * groups as indexed and {vars} as named.
     Expects `path` to use `/` as separator.
     """
     if path.startswith("{l10n_base}/"):
         path = path[12:]
-    path = path_stars.sub(
-        lambda m: (
-            "([^/]*)" if m[0] == "*" else "((?:.*/)?)" if m[0] == "**/" else "(.*)"
-        ),
-        path,
-    )
-    path = path_var.sub(r"(?P<\1>[^/]*)", path)
-    return compile(path)
+    path = normpath(path).replace(sep, "/")
+    regex = ""
+    end = 0
+    seen: set[str] = set()
+    for m in (path_token if with_vars else path_stars).finditer(path):
+        regex += escape(path[end : m.start()])
+        end = m.end()
+        var = m.group(2) if with_vars else None
+        if var is None:
+            stars = m[0]
+            regex += (
+                "([^/]*)"
+                if stars == "*"
+                else "((?:.*/)?)"
+                if stars == "**/"
+                else "(.*)"
+            )
+        elif var in seen:
+            regex += f"(?P={var})"
+        else:
+            regex += f"(?P<{var}>[^/]*)"
+            seen.add(var)
+    return compile(regex + escape(path[end:]))
 
 
 class PartialMap(dict[str, str]):
@@ -128,12 +144,12 @@ class L10nConfigPaths:
         env = toml.get("env", None)
         env_map = PartialMap(env) if env else None
 
-        self._templates: list[tuple[str, Pattern[str]]] = []  #
+        self._templates: list[tuple[list[str], Pattern[str]]] = []
         """
         `[(ref, target)]`
 
         To find references for targets,
-        retains a `ref` string with `{}` slots for the corresponding
+        retains the parts of `ref` separated by the corresponding
         `*` and `**` parts of the template paths,
         which are also the indexed groups captured in `target`.
         """
@@ -147,7 +163,9 @@ class L10nConfigPaths:
             target: str = path["l10n"]  # Note: not normalised, so sep=="/"
             if env_map:
                 target = target.format_map(env_map)
-            self._templates.append((path_stars.sub("{}", ref), path_regex(target)))
+            # Template targets become non-template ones
+            tgt_pattern = path_regex(target[:-1] if target.endswith(".pot") else target)
+            self._templates.append((path_stars.split(ref), tgt_pattern))
             locales: list[str] | None = path.get("locales", None)
             if "*" in ref:
                 if ref.count("*") != target.count("*"):
@@ -408,13 +426,16 @@ class L10nConfigPaths:
             match = pattern.fullmatch(rel_target)
             if match:
                 vars = match.groupdict()
-                var_spans = {match.span(name) for name in vars}
+                var_groups = pattern.groupindex.values()
                 star_values = [
                     group
                     for idx, group in enumerate(match.groups())
-                    if match.span(idx + 1) not in var_spans
+                    if idx + 1 not in var_groups
                 ]
-                ref_path = normpath(ref.format(*star_values))
+                *ref_parts, ref_end = ref
+                ref_path = normpath(
+                    "".join(a + b for a, b in zip(ref_parts, star_values)) + ref_end
+                )
                 if ref_path in self._path_data:
                     return ref_path, vars
                 if ref_path.endswith(".po"):
-- 
2.43.0


From 3d97fe7f2fb066cff597c93777368d4439a41f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:53 +0000
Subject: [PATCH 082/141] fix: match each wildcard of config references with
 what it stands for

---
 python/moz/l10n/paths/config.py | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/python/moz/l10n/paths/config.py b/python/moz/l10n/paths/config.py
index a86e85a..1016486 100644
--- a/python/moz/l10n/paths/config.py
+++ b/python/moz/l10n/paths/config.py
@@ -17,10 +17,11 @@ from __future__ import annotations
 import sys
 from collections import defaultdict
 from collections.abc import Callable, Iterator
+from glob import escape as glob_escape
 from glob import glob
 from os import sep
 from os.path import abspath, dirname, isfile, join, normpath, relpath
-from re import Pattern, compile, escape
+from re import Pattern, compile, escape, split
 from typing import Any, cast
 
 from .android_locale import get_android_locale
@@ -156,7 +157,6 @@ class L10nConfigPaths:
 
         self._path_data: dict[str, dict[str, list[str] | None]] = defaultdict(dict)
         """ ref -> target -> locales """
-        fp = set(force_paths) if force_paths else None
         for path in toml.get("paths", []):
             assert isinstance(path, dict)
             ref: str = normpath(join(self._ref_root, path["reference"]))
@@ -172,9 +172,7 @@ class L10nConfigPaths:
                     raise ValueError(
                         f"Wildcard mismatch between reference & l10n: {path}"
                     )
-                ref_re = compile(
-                    path_stars.sub("(.*)", ref.replace(sep, "/").replace(".", r"\."))
-                )
+                ref_re = path_regex(ref.replace(sep, "/"), with_vars=False)
                 *tgt_parts, tgt_end = path_stars.split(target)
 
                 def get_target(ref_file: str) -> str:
@@ -184,18 +182,16 @@ class L10nConfigPaths:
                         "".join(a + b for a, b in zip(tgt_parts, m.groups())) + tgt_end
                     )
 
-                for ref_file in glob(ref, recursive=True):
+                ref_glob = "".join(
+                    part if path_stars.fullmatch(part) else glob_escape(part)
+                    for part in split(f"({path_stars.pattern})", ref)
+                )
+                for ref_file in glob(ref_glob, recursive=True):
                     if isfile(ref_file):
                         self._path_data[ref_file][get_target(ref_file)] = locales
-                if fp:
-                    ref_re = path_regex(ref.replace(sep, "/"))
-                    fp_match = {
-                        path for path in fp if ref_re.fullmatch(path.replace(sep, "/"))
-                    }
-                    if fp_match:
-                        for path in fp_match:
-                            self._path_data[path][get_target(path)] = locales
-                        fp -= fp_match
+                for path_ in force_paths or ():
+                    if ref_re.fullmatch(path_.replace(sep, "/")):
+                        self._path_data[path_][get_target(path_)] = locales
             else:
                 self._path_data[ref][target] = locales
 
-- 
2.43.0


From 4e8b0cb1ec22e62a1607c17e6b45429934374c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:54 +0000
Subject: [PATCH 083/141] fix: do not include a config in itself, and force
 paths matching included configs

---
 python/moz/l10n/paths/config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/paths/config.py b/python/moz/l10n/paths/config.py
index 1016486..d6ae8ce 100644
--- a/python/moz/l10n/paths/config.py
+++ b/python/moz/l10n/paths/config.py
@@ -198,7 +198,7 @@ class L10nConfigPaths:
         self._includes: list[L10nConfigPaths] = []
         if "includes" in toml:
             if _seen is None:
-                _seen = set()
+                _seen = {abspath(cfg_path)}
             for incl in toml["includes"]:
                 incl_path: str = incl["path"]
                 if env_map:
@@ -210,6 +210,7 @@ class L10nConfigPaths:
                         L10nConfigPaths(
                             incl_path,
                             cfg_load=cfg_load,
+                            force_paths=force_paths,
                             locale_map=locale_map,
                             _seen=_seen,
                         )
-- 
2.43.0


From 902c80f94fdd834055ae962cdab31701823b2729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:55 +0000
Subject: [PATCH 084/141] fix: find targets of .po reference files of configs

---
 python/moz/l10n/paths/config.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/paths/config.py b/python/moz/l10n/paths/config.py
index d6ae8ce..d7730bf 100644
--- a/python/moz/l10n/paths/config.py
+++ b/python/moz/l10n/paths/config.py
@@ -346,9 +346,9 @@ class L10nConfigPaths:
         if locale is not None and self._locales and locale not in self._locales:
             return None, set()
         norm_ref_path = normpath(join(self._ref_root, ref_path))
-        if norm_ref_path.endswith(".po"):
-            norm_ref_path += "t"
         pd = self._path_data.get(norm_ref_path, None)
+        if pd is None and norm_ref_path.endswith(".po"):
+            pd = self._path_data.get(norm_ref_path + "t", None)
         target = None
         locales = None
         if pd:
-- 
2.43.0


From 9dafe78f59729f484187a480f8acbf4380932736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:56 +0000
Subject: [PATCH 085/141] fix: do not take braces in config paths for format
 fields

---
 python/moz/l10n/paths/config.py | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/python/moz/l10n/paths/config.py b/python/moz/l10n/paths/config.py
index d7730bf..48c8ad1 100644
--- a/python/moz/l10n/paths/config.py
+++ b/python/moz/l10n/paths/config.py
@@ -16,7 +16,7 @@ from __future__ import annotations
 
 import sys
 from collections import defaultdict
-from collections.abc import Callable, Iterator
+from collections.abc import Callable, Iterator, Mapping
 from glob import escape as glob_escape
 from glob import glob
 from os import sep
@@ -83,11 +83,9 @@ def path_regex(path: str, *, with_vars: bool = True) -> Pattern[str]:
     return compile(regex + escape(path[end:]))
 
 
-class PartialMap(dict[str, str]):
-    """Allows `str.format_map()` calls with partial values."""
-
-    def __missing__(self, key: str) -> str:
-        return "{" + str(key) + "}"
+def fill_vars(path: str, values: Mapping[str, str]) -> str:
+    """Replaces `{vars}` of `path`, leaving in ones with no value."""
+    return path_var.sub(lambda m: values.get(m[1], m[0]), path)
 
 
 class L10nConfigPaths:
@@ -143,7 +141,6 @@ class L10nConfigPaths:
         self._ref_root = self._base
         self._locales: list[str] | None = toml.get("locales", None)
         env = toml.get("env", None)
-        env_map = PartialMap(env) if env else None
 
         self._templates: list[tuple[list[str], Pattern[str]]] = []
         """
@@ -161,8 +158,8 @@ class L10nConfigPaths:
             assert isinstance(path, dict)
             ref: str = normpath(join(self._ref_root, path["reference"]))
             target: str = path["l10n"]  # Note: not normalised, so sep=="/"
-            if env_map:
-                target = target.format_map(env_map)
+            if env:
+                target = fill_vars(target, env)
             # Template targets become non-template ones
             tgt_pattern = path_regex(target[:-1] if target.endswith(".pot") else target)
             self._templates.append((path_stars.split(ref), tgt_pattern))
@@ -201,8 +198,8 @@ class L10nConfigPaths:
                 _seen = {abspath(cfg_path)}
             for incl in toml["includes"]:
                 incl_path: str = incl["path"]
-                if env_map:
-                    incl_path = incl_path.format_map(env_map)
+                if env:
+                    incl_path = fill_vars(incl_path, env)
                 incl_path = normpath(join(self._ref_root, incl_path))
                 if incl_path not in _seen:
                     _seen.add(incl_path)
@@ -311,11 +308,11 @@ class L10nConfigPaths:
     def _all(
         self, format_map: dict[str, str] | None
     ) -> Iterator[tuple[tuple[str, str], list[str] | None]]:
-        lc_map = PartialMap(format_map or ())
+        lc_map = dict(format_map or ())
         lc_map["l10n_base"] = self._base
         for ref, pd in self._path_data.items():
             for target, locales in pd.items():
-                target = target.format_map(lc_map)
+                target = fill_vars(target, lc_map)
                 if target.endswith(".pot"):
                     target = target[:-1]
                 target = normpath(join(self._base, target))
@@ -387,9 +384,9 @@ class L10nConfigPaths:
                     return target_
             return None, set()
 
-        fmt_map = PartialMap(format_map or ())
+        fmt_map = dict(format_map or ())
         fmt_map["l10n_base"] = self._base
-        path = target.format_map(fmt_map)
+        path = fill_vars(target, fmt_map)
         if path.endswith(".pot"):
             path = path[:-1]
         path = normpath(join(self._base, path))
@@ -410,7 +407,7 @@ class L10nConfigPaths:
             values-iw/strings.xml
         """
         lc_map = {key: fn(locale) for key, fn in self._locale_map.items()}
-        return normpath(target.format_map(lc_map))
+        return normpath(fill_vars(target, lc_map))
 
     def find_reference(self, target: str) -> tuple[str, dict[str, str]] | None:
         """
-- 
2.43.0


From de440a88eb5d83ec502dfc91288ac8b464ab8307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:23 +0000
Subject: [PATCH 086/141] fix: look up references of targets only below the
 parents of their path

---
 python/moz/l10n/paths/config.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/python/moz/l10n/paths/config.py b/python/moz/l10n/paths/config.py
index 48c8ad1..4e8ddf3 100644
--- a/python/moz/l10n/paths/config.py
+++ b/python/moz/l10n/paths/config.py
@@ -33,6 +33,7 @@ else:
 
 path_stars = compile(r"[*](?:[*](?:[/\\][*]*)?)?")
 path_var = compile(r"{(\w+)}")
+path_parents = compile(r"(?:[.][.]/)*")
 path_token = compile(rf"({path_stars.pattern})|{path_var.pattern}")
 
 _DEFAULT_LOCALE_MAP: dict[str, Callable[[str], str]] = {
@@ -56,9 +57,6 @@ def path_regex(path: str, *, with_vars: bool = True) -> Pattern[str]:
     Captures * groups as indexed and {vars} as named.
     Expects `path` to use `/` as separator.
     """
-    if path.startswith("{l10n_base}/"):
-        path = path[12:]
-    path = normpath(path).replace(sep, "/")
     regex = ""
     end = 0
     seen: set[str] = set()
@@ -142,14 +140,15 @@ class L10nConfigPaths:
         self._locales: list[str] | None = toml.get("locales", None)
         env = toml.get("env", None)
 
-        self._templates: list[tuple[list[str], Pattern[str]]] = []
+        self._templates: list[tuple[list[str], str, Pattern[str]]] = []
         """
-        `[(ref, target)]`
+        `[(ref, target_root, target)]`
 
         To find references for targets,
         retains the parts of `ref` separated by the corresponding
         `*` and `**` parts of the template paths,
         which are also the indexed groups captured in `target`.
+        `target_root` is relative to the base, and consists only of `..` parts.
         """
 
         self._path_data: dict[str, dict[str, list[str] | None]] = defaultdict(dict)
@@ -161,8 +160,13 @@ class L10nConfigPaths:
             if env:
                 target = fill_vars(target, env)
             # Template targets become non-template ones
-            tgt_pattern = path_regex(target[:-1] if target.endswith(".pot") else target)
-            self._templates.append((path_stars.split(ref), tgt_pattern))
+            tgt_path = target[:-1] if target.endswith(".pot") else target
+            if tgt_path.startswith("{l10n_base}/"):
+                tgt_path = tgt_path[12:]
+            tgt_path = normpath(tgt_path).replace(sep, "/")
+            tgt_root = path_parents.match(tgt_path)[0]  # type: ignore[index]
+            tgt_pattern = path_regex(tgt_path[len(tgt_root) :])
+            self._templates.append((path_stars.split(ref), tgt_root, tgt_pattern))
             locales: list[str] | None = path.get("locales", None)
             if "*" in ref:
                 if ref.count("*") != target.count("*"):
@@ -415,8 +419,11 @@ class L10nConfigPaths:
         or `None` if not found.
         """
         abs_target = join(self._base, normpath(target))
-        rel_target = normpath(relpath(abs_target, self._base)).replace(sep, "/")
-        for ref, pattern in self._templates:
+        for ref, tgt_root, pattern in self._templates:
+            rel_target = relpath(abs_target, join(self._base, tgt_root))
+            rel_target = rel_target.replace(sep, "/")
+            if rel_target == ".." or rel_target.startswith("../"):
+                continue
             match = pattern.fullmatch(rel_target)
             if match:
                 vars = match.groupdict()
-- 
2.43.0


From 79f560b76e340dbee81b346799408e1eeaf68a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:39 +0000
Subject: [PATCH 087/141] fix: compare with a source directory given by a
 relative path

---
 python/moz/l10n/bin/compare.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/bin/compare.py b/python/moz/l10n/bin/compare.py
index 32fa19c..cbc4bdc 100644
--- a/python/moz/l10n/bin/compare.py
+++ b/python/moz/l10n/bin/compare.py
@@ -116,7 +116,7 @@ def cli(
         source_paths: L10nConfigPaths | L10nDiscoverPaths = (
             L10nConfigPaths(source)
             if source.endswith(".toml")
-            else L10nDiscoverPaths(source, source)
+            else L10nDiscoverPaths(source, ref_root=".")
         )
         path0 = abspath(paths[0])
         locale0 = basename(path0)
-- 
2.43.0


From 9780f20817d93a17d944d069d8bc3aa196edb50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:40 +0000
Subject: [PATCH 088/141] fix: name the locale of a compared directory given as
 . or ..

---
 python/moz/l10n/bin/compare.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/bin/compare.py b/python/moz/l10n/bin/compare.py
index cbc4bdc..f380e16 100644
--- a/python/moz/l10n/bin/compare.py
+++ b/python/moz/l10n/bin/compare.py
@@ -16,7 +16,7 @@ from __future__ import annotations
 
 import json
 from collections import defaultdict
-from os.path import abspath, basename, dirname, isdir, join, normpath, relpath
+from os.path import abspath, basename, dirname, isdir, join, relpath
 from typing import Collection
 
 import click
@@ -144,7 +144,7 @@ def cli(
     for path in paths:
         if not isdir(path):
             continue
-        lc = basename(normpath(path))
+        lc = basename(abspath(path))
         errors, missing = compare(source_data, path)
         if json_output:
             json_res[lc] = {
-- 
2.43.0


From d67bd2fab0d98732334a7d628684d0558b768a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:41 +0000
Subject: [PATCH 089/141] fix: keep the metadata of built resources and their
 sections

---
 python/moz/l10n/bin/build.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/bin/build.py b/python/moz/l10n/bin/build.py
index 8e76184..c0aca0d 100644
--- a/python/moz/l10n/bin/build.py
+++ b/python/moz/l10n/bin/build.py
@@ -167,10 +167,12 @@ def write_target_file(
             for entry in section.entries
             if isinstance(entry, Entry)
         }
+        l10n_section_meta = {section.id: section.meta for section in l10n_res.sections}
         l10n_res.sections = []
     else:
-        l10n_res = Resource(source_res.format, [])
+        l10n_res = Resource(source_res.format, [], meta=source_res.meta)
         l10n_map = {}
+        l10n_section_meta = {}
     # Fluent uses per-message fallback at runtime, allowing resources to be incomplete.
     is_fluent = source_res.format == Format.fluent
     msg_delta = 0
@@ -221,7 +223,8 @@ def write_target_file(
             for entry_ in section.entries
             if (entry := get_entry(section.id, entry_)) is not None
         ]
-        l10n_res.sections.append(Section(section.id, tgt_entries))
+        meta = l10n_section_meta.get(section.id, section.meta)
+        l10n_res.sections.append(Section(section.id, tgt_entries, meta=meta))
 
     msg = f"merge {name}"
     log.info(f"{msg} ({msg_delta:+d})" if msg_delta != 0 else msg)
-- 
2.43.0


From dcbbac769e1d84e28d82e663886e3be26bfb97a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:42 +0000
Subject: [PATCH 090/141] fix: report the coverage of copied files in builds as
 for single files

---
 python/moz/l10n/bin/build.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/python/moz/l10n/bin/build.py b/python/moz/l10n/bin/build.py
index c0aca0d..0a31486 100644
--- a/python/moz/l10n/bin/build.py
+++ b/python/moz/l10n/bin/build.py
@@ -122,13 +122,8 @@ def cli(
                     msg_data[locale][1] += msg_delta
                 else:
                     msg_data[locale]
-                if coverage:
-                    file_key = relpath(l10n_path, join(base, locale))
-                    coverage_data[locale][file_key] = {
-                        "total": total_count,
-                        "missing": missing_ids,
-                    }
             else:
+                total_count, missing_ids = 0, []
                 from_path = l10n_path if exists(l10n_path) else source_path
                 if from_path != tgt_path:
                     copy = "copy" if from_path == l10n_path else "copy-src"
@@ -136,6 +131,12 @@ def cli(
                     copyfile(from_path, tgt_path)
                 else:
                     log.info(f"skip {rel_path}")
+            if coverage:
+                file_key = relpath(l10n_path, join(base, locale))
+                coverage_data[locale][file_key] = {
+                    "total": total_count,
+                    "missing": missing_ids,
+                }
 
     if coverage:
         for locale, file_coverage in coverage_data.items():
-- 
2.43.0


From 062a44e9c6a5d5ca8bc85e81f39f8e5b48a0068d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:43 +0000
Subject: [PATCH 091/141] fix: build a file with its target in the current
 directory

---
 python/moz/l10n/bin/build_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/bin/build_file.py b/python/moz/l10n/bin/build_file.py
index 48601f9..d7a7435 100644
--- a/python/moz/l10n/bin/build_file.py
+++ b/python/moz/l10n/bin/build_file.py
@@ -64,7 +64,7 @@ def cli(
             source_res = parse_resource(source)
         except UnsupportedFormat:
             source_res = None
-        makedirs(dirname(target), exist_ok=True)
+        makedirs(dirname(target) or ".", exist_ok=True)
         total_count = 0
         missing_ids: list[str | list[str]] = []
         if source_res is None:
-- 
2.43.0


From e2f5d70c53fc36f340e15a5ce60a215a3dca6eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:46 +0000
Subject: [PATCH 092/141] fix: keep the target of a migration that cannot be
 written, and create its directory

---
 python/moz/l10n/migrate/__init__.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/python/moz/l10n/migrate/__init__.py b/python/moz/l10n/migrate/__init__.py
index 66bdcd5..08e0b79 100644
--- a/python/moz/l10n/migrate/__init__.py
+++ b/python/moz/l10n/migrate/__init__.py
@@ -17,7 +17,8 @@ from __future__ import annotations
 import dataclasses
 from copy import deepcopy
 from logging import getLogger
-from os.path import isdir, isfile, join
+from os import makedirs
+from os.path import dirname, isdir, isfile, join
 from typing import Any, Callable, Union
 
 from moz.l10n.formats import Format, detect_format
@@ -153,10 +154,12 @@ class Migrate:
                     entries = "1 entry" if nc == 1 else f"{nc} entries"
                     log.info(f"Adding {entries} to {ref_path} for locale {locale}")
                     tgt_path = self.paths.format_target_path(tgt_fmt, locale)
+                    # Serialize first, to not lose the file if that fails.
+                    text = "".join(serialize_resource(res))
                     if not dry_run:
+                        makedirs(dirname(tgt_path) or ".", exist_ok=True)
                         with open(tgt_path, "w", encoding="utf-8") as file:
-                            for line in serialize_resource(res):
-                                file.write(line)
+                            file.write(text)
                     all_changes[tgt_path] = changed
         return all_changes
 
-- 
2.43.0


From 0d88ac7493809035358478df6d1383b6ce8091ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:47 +0000
Subject: [PATCH 093/141] fix: do not overwrite migration targets that cannot
 be parsed, nor those of other locales

---
 python/moz/l10n/migrate/__init__.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/migrate/__init__.py b/python/moz/l10n/migrate/__init__.py
index 08e0b79..a6dd4d3 100644
--- a/python/moz/l10n/migrate/__init__.py
+++ b/python/moz/l10n/migrate/__init__.py
@@ -18,7 +18,7 @@ import dataclasses
 from copy import deepcopy
 from logging import getLogger
 from os import makedirs
-from os.path import dirname, isdir, isfile, join
+from os.path import dirname, exists, isdir, isfile, join
 from typing import Any, Callable, Union
 
 from moz.l10n.formats import Format, detect_format
@@ -129,8 +129,14 @@ class Migrate:
             src_res: Resource[Message] | None = None
             for locale in locales:
                 ctx = MigrationContext(self.paths, ref_path, locale, self.parse_options)
+                tgt_path, _ = self.paths.target(ref_path, locale=locale)
+                if tgt_path is None:
+                    tgt_path = self.paths.format_target_path(tgt_fmt, locale)
                 res = ctx.get_resource(ref_path)
                 if res is None:
+                    if exists(tgt_path):
+                        log.warning(f"Skipping {tgt_path}, as parsing it failed")
+                        continue
                     if src_res is None:
                         src_res = _get_empty_resource(
                             join(self.paths.ref_root, ref_path)
@@ -153,7 +159,6 @@ class Migrate:
                     nc = len(changed)
                     entries = "1 entry" if nc == 1 else f"{nc} entries"
                     log.info(f"Adding {entries} to {ref_path} for locale {locale}")
-                    tgt_path = self.paths.format_target_path(tgt_fmt, locale)
                     # Serialize first, to not lose the file if that fails.
                     text = "".join(serialize_resource(res))
                     if not dry_run:
-- 
2.43.0


From 450235e579276375db93e29c57d269ac6c178d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:48 +0000
Subject: [PATCH 094/141] fix: show migrations the entries added earlier in the
 same run, also in dry runs

---
 python/moz/l10n/migrate/__init__.py | 14 ++++++++++++--
 python/moz/l10n/migrate/utils.py    |  5 ++++-
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/python/moz/l10n/migrate/__init__.py b/python/moz/l10n/migrate/__init__.py
index a6dd4d3..7321b1f 100644
--- a/python/moz/l10n/migrate/__init__.py
+++ b/python/moz/l10n/migrate/__init__.py
@@ -121,6 +121,7 @@ class Migrate:
         if self.paths is None:
             raise ValueError("Paths not set")
         all_changes: dict[str, list[Entry[Message]]] = {}
+        dry_run_contents: dict[str, str] = {}
         for ref_path, res_add_entries in self.map.items():
             tgt_fmt, locales = self.paths.target(ref_path)
             if tgt_fmt is None:
@@ -128,7 +129,13 @@ class Migrate:
 
             src_res: Resource[Message] | None = None
             for locale in locales:
-                ctx = MigrationContext(self.paths, ref_path, locale, self.parse_options)
+                ctx = MigrationContext(
+                    self.paths,
+                    ref_path,
+                    locale,
+                    self.parse_options,
+                    _contents=dry_run_contents,
+                )
                 tgt_path, _ = self.paths.target(ref_path, locale=locale)
                 if tgt_path is None:
                     tgt_path = self.paths.format_target_path(tgt_fmt, locale)
@@ -147,6 +154,7 @@ class Migrate:
                             )
                             continue
                     res = deepcopy(src_res)
+                    ctx._resources[ref_path] = res
 
                 changed: list[Entry[Message]] = []
                 for id, create in res_add_entries.items():
@@ -161,7 +169,9 @@ class Migrate:
                     log.info(f"Adding {entries} to {ref_path} for locale {locale}")
                     # Serialize first, to not lose the file if that fails.
                     text = "".join(serialize_resource(res))
-                    if not dry_run:
+                    if dry_run:
+                        dry_run_contents[tgt_path] = text
+                    else:
                         makedirs(dirname(tgt_path) or ".", exist_ok=True)
                         with open(tgt_path, "w", encoding="utf-8") as file:
                             file.write(text)
diff --git a/python/moz/l10n/migrate/utils.py b/python/moz/l10n/migrate/utils.py
index 6743bda..e470a8f 100644
--- a/python/moz/l10n/migrate/utils.py
+++ b/python/moz/l10n/migrate/utils.py
@@ -49,13 +49,16 @@ class MigrationContext:
 
     _prev_ids: list[Id] = field(default_factory=list)
     _resources: dict[str, Resource[Message] | None] = field(default_factory=dict)
+    _contents: dict[str, str] = field(default_factory=dict)
+    """In a dry run, the contents of changed target paths."""
 
     def get_resource(self, ref_path: str) -> Resource[Message] | None:
         if ref_path in self._resources:
             return self._resources[ref_path]
         tgt_path, _ = self.paths.target(ref_path, locale=self.locale)
         try:
-            res = parse_resource(tgt_path, **self.parse_options)
+            contents = self._contents.get(tgt_path or "", None)
+            res = parse_resource(tgt_path, contents, **self.parse_options)
         except OSError:
             log.debug(f"Resource not available: {tgt_path}")
             res = None
-- 
2.43.0


From 5761a641455f0ed5f224f41a3e0d62166691dbcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:49 +0000
Subject: [PATCH 095/141] fix: insert migrated entries in the section of their
 identifier

---
 python/moz/l10n/migrate/__init__.py |  6 ++++-
 python/moz/l10n/migrate/utils.py    | 41 ++++++++++++++---------------
 2 files changed, 25 insertions(+), 22 deletions(-)

diff --git a/python/moz/l10n/migrate/__init__.py b/python/moz/l10n/migrate/__init__.py
index 7321b1f..078a8b4 100644
--- a/python/moz/l10n/migrate/__init__.py
+++ b/python/moz/l10n/migrate/__init__.py
@@ -430,5 +430,9 @@ def _create_entry(
     else:
         raise ValueError(f"Unsupported entry type {type(src_entry)}: {ctx}")
 
-    insert_entry_after(res, new_entry, *src_ids, *ctx._prev_ids)
+    try:
+        insert_entry_after(res, new_entry, *src_ids, *ctx._prev_ids)
+    except StopIteration:
+        log.warning(f"No section found for {ctx}")
+        return None
     return new_entry
diff --git a/python/moz/l10n/migrate/utils.py b/python/moz/l10n/migrate/utils.py
index e470a8f..74d2cec 100644
--- a/python/moz/l10n/migrate/utils.py
+++ b/python/moz/l10n/migrate/utils.py
@@ -159,9 +159,9 @@ def insert_entry_after(
 ) -> None:
     """
     Insert `entry` in `res` after the last entry
-    with an `.id` matching one of `src_ids`,
+    with an `.id` matching one of `src_ids` in a section of `entry`,
     or if none such are found,
-    at the end of the last section matching any of `ids`.
+    at the end of its first section.
 
     Note that `entry.id` is expected to include its section id,
     which will be dropped before insertion.
@@ -169,29 +169,28 @@ def insert_entry_after(
     If no suitable insertion position is found, raises StopIteration.
     """
     id_set = {id if isinstance(id, tuple) else (id,) for id in src_ids}
-    last_section: Section[M] | None = None
-    for section in reversed(res.sections):
-        if section.id:
-            sid_len = len(section.id)
-            eid_set = {id[sid_len:] for id in id_set if section.id == id[:sid_len]}
-            if not eid_set:
-                continue
-        else:
-            sid_len = 0
-            eid_set = id_set
+    # The sections with the longest section identifier that `entry.id` starts with.
+    sections: list[Section[M]] = []
+    sid_len = -1
+    for section in res.sections:
+        len_ = len(section.id)
+        if sid_len <= len_ < len(entry.id) and section.id == entry.id[:len_]:
+            if sid_len < len_:
+                sections.clear()
+                sid_len = len_
+            sections.append(section)
+    if not sections:
+        raise StopIteration
+
+    sid = sections[0].id
+    entry.id = entry.id[sid_len:]
+    eid_set = {id[sid_len:] for id in id_set if id[:sid_len] == sid}
+    for section in reversed(sections):
         for e_rev_idx, e in enumerate(reversed(section.entries)):
             if isinstance(e, Entry) and e.id in eid_set:
-                if sid_len:
-                    entry.id = entry.id[sid_len:]
                 section.entries.insert(len(section.entries) - e_rev_idx, entry)
                 return
-        last_section = section
-    if last_section is None:
-        raise StopIteration
-    else:
-        if last_section.id:
-            entry.id = entry.id[len(last_section.id) :]
-        last_section.entries.append(entry)
+    sections[0].entries.append(entry)
 
 
 def plural_message(
-- 
2.43.0


From 35f8c1dee12c44e2d4f415a63e9fbb278f19f44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:51 +0000
Subject: [PATCH 096/141] fix: accept string results of migration functions

---
 python/moz/l10n/migrate/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/moz/l10n/migrate/__init__.py b/python/moz/l10n/migrate/__init__.py
index 078a8b4..6076a45 100644
--- a/python/moz/l10n/migrate/__init__.py
+++ b/python/moz/l10n/migrate/__init__.py
@@ -421,6 +421,9 @@ def _create_entry(
     else:
         src_ids = {ctx.target_id}
 
+    if isinstance(src_entry, str):
+        src_entry = PatternMessage([src_entry])
+
     # For .ini and .xliff, new_entry.id will initially contain the section id.
     # This is dropped later in insert_entry_after().
     if isinstance(src_entry, Entry):
-- 
2.43.0


From 8b03d55a0441bcaa6a28171c32f1b4fb282bb328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:52 +0000
Subject: [PATCH 097/141] fix: get the default pattern for a missing property

---
 python/moz/l10n/migrate/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/moz/l10n/migrate/utils.py b/python/moz/l10n/migrate/utils.py
index 74d2cec..4dc5353 100644
--- a/python/moz/l10n/migrate/utils.py
+++ b/python/moz/l10n/migrate/utils.py
@@ -133,6 +133,8 @@ def get_pattern(
         msg = entry.value
     elif property in entry.properties:
         msg = entry.properties[property]
+    elif default is not None:
+        return default
     else:
         raise StopIteration
 
-- 
2.43.0


From 4d25c9f9399e208c6c2ad6c364d6ece36a6f9037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:53 +0000
Subject: [PATCH 098/141] fix: copy all variants of a property in a migration

---
 python/moz/l10n/migrate/__init__.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/migrate/__init__.py b/python/moz/l10n/migrate/__init__.py
index 6076a45..3a0736c 100644
--- a/python/moz/l10n/migrate/__init__.py
+++ b/python/moz/l10n/migrate/__init__.py
@@ -221,12 +221,21 @@ def copy(
         else:
             res_ = res
 
-        if property is None and variant is None:
+        if variant is None:
             entry = get_entry(res_, *id)
-            if entry:
+            if entry and property is None:
                 entry = deepcopy(entry)
                 _replace_placeholders(entry, replace)
                 return (entry.value if value_only else entry, {id})
+            elif entry and property in entry.properties:
+                msg = deepcopy(entry.properties[property])
+                _replace_placeholders(msg, replace)
+                return msg, {id}
+            elif entry:
+                log.debug(
+                    f"Copy-from property {property} not found: {ctx.pretty_id(id)}"
+                )
+                return None
             else:
                 log.debug(f"Copy-from entry not found: {ctx.pretty_id(id)}")
                 return None
-- 
2.43.0


From 94758b058b27577eafc102ecbbdc8b3b994b1384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:55 +0000
Subject: [PATCH 099/141] fix: do not share patterns between the variants of a
 plural message

---
 python/moz/l10n/migrate/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/migrate/utils.py b/python/moz/l10n/migrate/utils.py
index 4dc5353..437d096 100644
--- a/python/moz/l10n/migrate/utils.py
+++ b/python/moz/l10n/migrate/utils.py
@@ -14,6 +14,7 @@
 
 from __future__ import annotations
 
+from copy import deepcopy
 from dataclasses import dataclass, field
 from logging import getLogger
 from typing import Any, TypeVar, Union
@@ -226,6 +227,8 @@ def plural_message(
         declarations={var_name: Expression(VariableRef(var_name), "number")},
         selectors=(VariableRef(var_name),),
         variants={
-            (key,): pattern for key, pattern in raw_variants if pattern is not None
+            (key,): deepcopy(pattern)
+            for key, pattern in raw_variants
+            if pattern is not None
         },
     )
-- 
2.43.0


From cc8908e0018b48559464e5e22fa6f5c91b64f4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:19 +0000
Subject: [PATCH 100/141] fix: serialize Android string arrays with comments

---
 python/moz/l10n/formats/android/serialize.py | 39 ++++++++++++++------
 1 file changed, 28 insertions(+), 11 deletions(-)

diff --git a/python/moz/l10n/formats/android/serialize.py b/python/moz/l10n/formats/android/serialize.py
index 322ab9a..058a8e2 100644
--- a/python/moz/l10n/formats/android/serialize.py
+++ b/python/moz/l10n/formats/android/serialize.py
@@ -85,7 +85,8 @@ def android_serialize(
     root = etree.Element("resources", attrib=root_attrib, nsmap=root_nsmap)
 
     entities = []
-    string_array = None
+    string_array: etree._Element | None = None
+    array_length = 0
     for section in resource.sections:
         if section.meta:
             raise ValueError("Section metadata is not supported")
@@ -107,8 +108,9 @@ def android_serialize(
                 name = entry.id[0]
                 if not xml_name.fullmatch(name):
                     raise ValueError(f"Invalid entry name: {name}")
+                attrib = get_attrib(name, entry.meta)
                 if len(entry.id) == 1:
-                    attrib = get_attrib(name, entry.meta)
+                    string_array = None
                     if isinstance(entry.value, SelectMessage):
                         # <plurals>
                         el = etree.SubElement(root, "plurals", attrib=attrib)
@@ -123,15 +125,29 @@ def android_serialize(
                         set_pattern_message(el, entry.value, allow_cdata=True)
                 else:
                     # <string-array>
-                    if string_array is None or name != string_array.get("name"):
+                    num = array_index(entry)
+                    if (
+                        string_array is None
+                        or name != string_array.get("name")
+                        or num == 0
+                    ):
                         string_array = etree.SubElement(
-                            root, "string-array", attrib=get_attrib(name, entry.meta)
+                            root, "string-array", attrib=attrib
                         )
+                        array_length = 0
+                    elif attrib != dict(string_array.attrib):
+                        raise ValueError(f"Metadata differs within {name} string-array")
+                    if num != array_length:
+                        raise ValueError(
+                            f"String-array keys must be ordered: {entry.id}"
+                        )
+                    array_length += 1
                     if entry.comment and not trim_comments:
                         add_comment(string_array, entry.comment, False)
                     set_string_array_item(string_array, entry)
             elif not trim_comments:
-                add_comment(string_array or root, entry.comment, True)
+                add_comment(root, entry.comment, True)
+                string_array = None
 
     etree.cleanup_namespaces(root, {"xliff": xliff_ns})
 
@@ -241,15 +257,16 @@ def entity_definition(entry: Entry[str] | Entry[Message]) -> str:
     return f'<!ENTITY {name} "{value}">'
 
 
-def set_string_array_item(
-    parent: etree._Element, entry: Entry[str] | Entry[Message]
-) -> None:
+def array_index(entry: Entry[str] | Entry[Message]) -> int:
     try:
-        num = int(entry.id[1])
+        return int(entry.id[1])
     except ValueError:
         raise ValueError(f"Unsupported entry id: {entry.id}")
-    if num != len(parent):
-        raise ValueError(f"String-array keys must be ordered: {entry.id}")
+
+
+def set_string_array_item(
+    parent: etree._Element, entry: Entry[str] | Entry[Message]
+) -> None:
     if isinstance(entry.value, SelectMessage):
         raise ValueError(f"Unsupported message type for {entry.id}: {entry.value}")
     item = etree.SubElement(parent, "item")
-- 
2.43.0


From 5074c5c8b160246697ca14c7b5475df1e18d8b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:20 +0000
Subject: [PATCH 101/141] fix: keep the last comments of an Android resource,
 string array, or plural

---
 python/moz/l10n/formats/android/parse.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/moz/l10n/formats/android/parse.py b/python/moz/l10n/formats/android/parse.py
index b941d2a..d622f7c 100644
--- a/python/moz/l10n/formats/android/parse.py
+++ b/python/moz/l10n/formats/android/parse.py
@@ -187,6 +187,8 @@ def android_parse(
                         log.warning(
                             f"Unexpected text in {name} string-array: {item.tail}"
                         )
+                if comment:
+                    entries.append(Comment(comment_str(comment)))
 
             else:
                 es = etree.tostring(el, encoding="unicode")
@@ -195,6 +197,8 @@ def android_parse(
                 comment.clear()
         if el.tail and not el.tail.isspace():
             log.warning(f"Unexpected text in resource: {el.tail}")
+    if comment:
+        entries.append(Comment(comment_str(comment)))
     return res
 
 
@@ -311,6 +315,7 @@ def parse_plurals(
             raise ValueError(f"Unsupported {name} plurals child: {cs}")
         if item.tail and not item.tail.isspace():
             log.warning(f"Unexpected text in {name} plurals: {item.tail}")
+    add_comment(var_comment)
     return msg
 
 
-- 
2.43.0


From 11d9ce38620ace77e9671721619ee384ccc4e67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:46 +0000
Subject: [PATCH 102/141] fix: find Android double quotes after an escaped
 backslash

---
 python/moz/l10n/formats/android/parse.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/python/moz/l10n/formats/android/parse.py b/python/moz/l10n/formats/android/parse.py
index d622f7c..a69bbc1 100644
--- a/python/moz/l10n/formats/android/parse.py
+++ b/python/moz/l10n/formats/android/parse.py
@@ -16,7 +16,7 @@ from __future__ import annotations
 
 import logging
 from collections.abc import Callable, Iterable, Iterator
-from re import ASCII, compile, match
+from re import ASCII, DOTALL, compile, match
 from typing import Literal, cast
 
 from lxml import etree
@@ -399,7 +399,7 @@ def flatten(el: etree._Element) -> Iterator[str | Expression | Markup]:
             yield child.tail
 
 
-double_quote = compile(r'(?<!\\)"')
+escape_or_quote = compile(r'\\.|"', DOTALL)
 tag_like = compile(r"<.+>")
 
 
@@ -414,7 +414,9 @@ def parse_quotes(
         if isinstance(part, str):
             pos = 0
             if not literal_quotes:
-                for m in double_quote.finditer(part):
+                for m in escape_or_quote.finditer(part):
+                    if m[0] != '"':
+                        continue
                     if pos == 0 and tag_like.search(part) is not None:
                         # Let's presume that double quotes near html-ish contents are intentional.
                         break
-- 
2.43.0


From 484705885933408fb28c5535b59e116341cfd48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:47 +0000
Subject: [PATCH 103/141] fix: do not take an Android escape as a printf
 conversion

---
 python/moz/l10n/formats/android/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/android/parse.py b/python/moz/l10n/formats/android/parse.py
index a69bbc1..9db782b 100644
--- a/python/moz/l10n/formats/android/parse.py
+++ b/python/moz/l10n/formats/android/parse.py
@@ -442,7 +442,7 @@ inline_re = compile(
     r"\\u([0-9a-fA-F]{4})|"
     r"\\(.)|"
     r"(<[^%>]+>)|"
-    r"(%(?:[1-9]\$|<)?[-#+ 0,(]?[0-9.]*([tT]?.))"
+    r"(%(?:[1-9]\$|<)?[-#+ 0,(]?[0-9.]*([tT]?[^\\\n]))"
 )
 block_tag_re = compile(r"<(div|h[123456r]|p|d[dt]|li|/?[dou]l)\b")
 break_tag_re = compile(r"<[bh]r/?>")
-- 
2.43.0


From 522e00cb0ce3d29f58294a301fab0a4f55564528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:48 +0000
Subject: [PATCH 104/141] fix: normalize only unescaped Android spaces next to
 block and break tags

---
 python/moz/l10n/formats/android/parse.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/python/moz/l10n/formats/android/parse.py b/python/moz/l10n/formats/android/parse.py
index 9db782b..115feb7 100644
--- a/python/moz/l10n/formats/android/parse.py
+++ b/python/moz/l10n/formats/android/parse.py
@@ -460,18 +460,16 @@ def parse_inline(
             if acc:
                 yield acc
                 acc = ""
+            at_br = False
             yield part
         else:
             pos = 0
             for m in inline_re.finditer(part):
                 start = m.start()
                 if start > pos:
-                    if at_br and part[pos] == " ":
-                        acc += "\n" + part[pos + 1 : start]
-                    else:
-                        acc += part[pos:start]
-                if at_br:
-                    at_br = False
+                    text = part[pos:start]
+                    acc += "\n" + text[1:] if at_br and text[0] == " " else text
+                at_br = False
                 if m[1]:
                     # Unicode escape
                     acc += chr(int(m[1], base=16))
@@ -483,7 +481,7 @@ def parse_inline(
                     # Escaped HTML element, e.g. &lt;b>
                     # HTML elements containing internal % formatting are not wrapped as literals
                     tag = m[3]
-                    if acc.endswith(" ") and block_tag_re.match(tag):
+                    if start > pos and acc.endswith(" ") and block_tag_re.match(tag):
                         yield acc[:-1] + "\n"
                         acc = ""
                     elif acc:
@@ -535,7 +533,10 @@ def parse_inline(
                             VariableRef(name), func, attributes={"source": source}
                         )
                 pos = m.end()
-            acc += part[pos:]
+            if pos < len(part):
+                text = part[pos:]
+                acc += "\n" + text[1:] if at_br and text[0] == " " else text
+                at_br = False
     if acc:
         yield acc
 
-- 
2.43.0


From 517b022f1c8e05df50d5ba396cf6ef86e1ca9806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:49 +0000
Subject: [PATCH 105/141] fix: decode Android escapes of surrogate pairs, and
 within HTML tags

---
 python/moz/l10n/formats/android/parse.py | 30 ++++++++++++++++--------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/python/moz/l10n/formats/android/parse.py b/python/moz/l10n/formats/android/parse.py
index 115feb7..9b576ed 100644
--- a/python/moz/l10n/formats/android/parse.py
+++ b/python/moz/l10n/formats/android/parse.py
@@ -16,7 +16,7 @@ from __future__ import annotations
 
 import logging
 from collections.abc import Callable, Iterable, Iterator
-from re import ASCII, DOTALL, compile, match
+from re import ASCII, DOTALL, Match, compile, match
 from typing import Literal, cast
 
 from lxml import etree
@@ -438,8 +438,23 @@ def parse_quotes(
             yield part
 
 
+escape_re = compile(r"((?:\\u[0-9a-fA-F]{4})+)|\\(.)")
+
+
+def unescape(src: str) -> str:
+    def replace(m: Match[str]) -> str:
+        if m[1]:
+            # Unicode escapes, in which surrogate pairs make up one character
+            utf16 = bytes.fromhex(m[1].replace("\\u", ""))
+            return utf16.decode("utf-16-be", "surrogatepass")
+        c = m[2]
+        return "\n" if c == "n" else "\t" if c == "t" else c
+
+    return escape_re.sub(replace, src)
+
+
 inline_re = compile(
-    r"\\u([0-9a-fA-F]{4})|"
+    r"((?:\\u[0-9a-fA-F]{4})+)|"
     r"\\(.)|"
     r"(<[^%>]+>)|"
     r"(%(?:[1-9]\$|<)?[-#+ 0,(]?[0-9.]*([tT]?[^\\\n]))"
@@ -470,13 +485,8 @@ def parse_inline(
                     text = part[pos:start]
                     acc += "\n" + text[1:] if at_br and text[0] == " " else text
                 at_br = False
-                if m[1]:
-                    # Unicode escape
-                    acc += chr(int(m[1], base=16))
-                elif m[2]:
-                    # Escaped character
-                    c = m[2]
-                    acc += "\n" if c == "n" else "\t" if c == "t" else c
+                if m[1] or m[2]:
+                    acc += unescape(m[0])
                 elif m[3]:
                     # Escaped HTML element, e.g. &lt;b>
                     # HTML elements containing internal % formatting are not wrapped as literals
@@ -487,7 +497,7 @@ def parse_inline(
                     elif acc:
                         yield acc
                         acc = ""
-                    yield Expression(tag, "html")
+                    yield Expression(unescape(tag), "html")
                     at_br = bool(break_tag_re.fullmatch(tag))
                 else:
                     if acc:
-- 
2.43.0


From 45b4eda7f238ba1c23f5c92e605af2890f423cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:50 +0000
Subject: [PATCH 106/141] fix: ignore XML comments within Android messages

---
 python/moz/l10n/formats/android/parse.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/moz/l10n/formats/android/parse.py b/python/moz/l10n/formats/android/parse.py
index 9b576ed..6c258fc 100644
--- a/python/moz/l10n/formats/android/parse.py
+++ b/python/moz/l10n/formats/android/parse.py
@@ -325,6 +325,7 @@ resource_ref = compile(r"@(?:\w+:)?\w+/\w+|\?(?:\w+:)?(\w+/)?\w+")
 def parse_pattern(
     el: etree._Element, ascii_spaces: bool, literal_quotes: bool
 ) -> Iterator[str | Expression | Markup]:
+    etree.strip_tags(el, etree.Comment, etree.ProcessingInstruction)
     if len(el) == 0 and el.text and resource_ref.fullmatch(el.text):
         # https://developer.android.com/guide/topics/resources/providing-resources#ResourcesFromXml
         yield Expression(el.text, "reference")
-- 
2.43.0


From facf97bea9683d86328c06a47076f4a73a94a559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:51 +0000
Subject: [PATCH 107/141] fix: trim only ASCII spaces from Android messages
 with ascii_spaces

---
 python/moz/l10n/formats/android/parse.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/formats/android/parse.py b/python/moz/l10n/formats/android/parse.py
index 6c258fc..8bd7c37 100644
--- a/python/moz/l10n/formats/android/parse.py
+++ b/python/moz/l10n/formats/android/parse.py
@@ -330,15 +330,16 @@ def parse_pattern(
         # https://developer.android.com/guide/topics/resources/providing-resources#ResourcesFromXml
         yield Expression(el.text, "reference")
     else:
+        trim_chars = " \t\n\r\f\v" if ascii_spaces else None
         parts = list(flatten(el))
         if parts:
             if isinstance(parts[0], str):
-                parts[0] = parts[0].lstrip()
+                parts[0] = parts[0].lstrip(trim_chars)
             if isinstance(parts[-1], str):
                 # Unlike Android, this will trim trailing spaces
                 # at the end of a text segment with an unpaired ".
                 # We're presuming that this never happens intentionally.
-                parts[-1] = parts[-1].rstrip()
+                parts[-1] = parts[-1].rstrip(trim_chars)
         spaced = parse_quotes(parts, ascii_spaces, literal_quotes)
         yield from parse_inline(spaced)
 
-- 
2.43.0


From 195afd9dce7b7d38c0910c0828fa09dc5b5f67c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:12 +0000
Subject: [PATCH 108/141] fix: serialize Android resources as XML rather than
 as HTML

---
 python/moz/l10n/formats/android/serialize.py | 26 +++++++++++---------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/python/moz/l10n/formats/android/serialize.py b/python/moz/l10n/formats/android/serialize.py
index 058a8e2..78e55f1 100644
--- a/python/moz/l10n/formats/android/serialize.py
+++ b/python/moz/l10n/formats/android/serialize.py
@@ -175,7 +175,11 @@ def android_serialize(
         for entity in entities:
             yield f"  {entity}\n"
         yield "]>\n"
-    yield etree.tostring(root, encoding="unicode", method="html")
+    # Elements with an empty text are not self-closing
+    for el in root.iter(etree.Element):
+        if el.text is None and len(el) == 0:
+            el.text = ""
+    yield etree.tostring(root, encoding="unicode")
     yield "\n"
 
 
@@ -190,9 +194,7 @@ def android_serialize_message(msg: Message | str, *, allow_cdata: bool = False)
 
     target = etree.Element("string")
     set_pattern_message(target, msg, allow_cdata=allow_cdata)
-    string = etree.tostring(
-        target, encoding="unicode", method="html", pretty_print=True
-    ).strip()
+    string = etree.tostring(target, encoding="unicode")
     if string == "<string/>":
         return ""
     if not string.startswith("<string>"):
@@ -298,16 +300,18 @@ def set_plural_message(plurals: etree._Element, msg: SelectMessage) -> None:
 tag_like = compile(r"<.+>")
 
 
+def needs_cdata(text: str) -> bool:
+    return tag_like.search(text) is not None and "]]>" not in text
+
+
 def set_pattern_message(
     el: etree._Element, msg: Message | str, allow_cdata: bool
 ) -> None:
     if isinstance(msg, str):
         el.text = escape_part(msg)
         escape_pattern(el)
-        if allow_cdata and tag_like.search(el.text) is not None:
-            # The manual wrapper is a workaround for
-            # https://bugs.launchpad.net/lxml/+bug/2111509
-            el.text = etree.CDATA(f"<![CDATA[{el.text}]]>")
+        if allow_cdata and needs_cdata(el.text):
+            el.text = etree.CDATA(el.text)
     elif isinstance(msg, PatternMessage) and not msg.declarations:
         set_pattern(el, msg.pattern, allow_cdata=allow_cdata)
     else:
@@ -407,11 +411,9 @@ def set_pattern(
         allow_cdata
         and len(el) == 0
         and el.text
-        and tag_like.search(el.text) is not None
+        and needs_cdata(el.text)
     ):
-        # The manual wrapper is a workaround for
-        # https://bugs.launchpad.net/lxml/+bug/2111509
-        el.text = etree.CDATA(f"<![CDATA[{el.text}]]>")
+        el.text = etree.CDATA(el.text)
 
 
 def entity_name(part: Expression) -> str | None:
-- 
2.43.0


From 1b88115d0eb20556180fd180f2b79a593812fe37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:59 +0000
Subject: [PATCH 109/141] fix: escape all Android characters and spaces that
 need it

---
 python/moz/l10n/formats/android/serialize.py | 41 ++++++++++++++------
 1 file changed, 30 insertions(+), 11 deletions(-)

diff --git a/python/moz/l10n/formats/android/serialize.py b/python/moz/l10n/formats/android/serialize.py
index 78e55f1..da035e1 100644
--- a/python/moz/l10n/formats/android/serialize.py
+++ b/python/moz/l10n/formats/android/serialize.py
@@ -14,7 +14,7 @@
 
 from __future__ import annotations
 
-from collections.abc import Iterator
+from collections.abc import Collection, Iterator
 from re import compile
 from typing import cast
 
@@ -32,7 +32,14 @@ from ...model import (
     SelectMessage,
     VariableRef,
 )
-from .parse import plural_categories, resource_ref, xliff_g, xliff_ns, xml_name
+from .parse import (
+    block_tag_re,
+    plural_categories,
+    resource_ref,
+    xliff_g,
+    xliff_ns,
+    xml_name,
+)
 
 
 def android_serialize(
@@ -335,6 +342,7 @@ def set_pattern(
 
     parent = el
     node = None
+    protected: list[etree._Element] = []
     for part in pattern:
         if isinstance(part, str):
             esc = escape_part(part)
@@ -349,6 +357,7 @@ def set_pattern(
                 attrib = cast(dict[str, str], part.options) if part.function else None
                 nsmap = {"xliff": xliff_ns} if not el.nsmap.get("xliff", None) else None
                 node = etree.SubElement(parent, xliff_g, attrib=attrib, nsmap=nsmap)
+                protected.append(node)
                 if ent_name:
                     node.append(etree.Entity(ent_name))
                 elif "source" in part.attributes:
@@ -406,13 +415,8 @@ def set_pattern(
                 parent = cast(etree._Element, parent.getparent())
             else:
                 raise ValueError(f"Improper element nesting for {part} in {parent}")
-    escape_pattern(el)
-    if (
-        allow_cdata
-        and len(el) == 0
-        and el.text
-        and needs_cdata(el.text)
-    ):
+    escape_pattern(el, protected)
+    if allow_cdata and len(el) == 0 and el.text and needs_cdata(el.text):
         el.text = etree.CDATA(el.text)
 
 
@@ -432,7 +436,12 @@ android_escape = str.maketrans(
 )
 
 # Control codes are not valid in XML, and nonstandard whitespace needs escaping
-control_chars = compile(r"[\x00-\x19\x7F-\x9F]|[^\S ]|(?<= ) ")
+control_chars = compile(r"[\x00-\x1F\x7F-\x9F\uD800-\uDFFF\uFFFE\uFFFF]|[^\S ]|(?<= ) ")
+
+# Spaces that would otherwise be collapsed, or parsed as newlines
+special_spaces = compile(
+    rf"(?<= ) | (?={block_tag_re.pattern}[^%>]*>)|(?<=<[bh]r>) |(?<=<[bh]r/>) "
+)
 
 
 def escape_char(ch: str) -> str:
@@ -444,7 +453,17 @@ def escape_part(src: str) -> str:
     return control_chars.sub(lambda m: escape_char(m.group()), res)
 
 
-def escape_pattern(el: etree._Element) -> None:
+def escape_pattern(
+    el: etree._Element, protected: Collection[etree._Element] = ()
+) -> None:
+    def escape_spaces(src: str | None) -> str | None:
+        return src and special_spaces.sub(lambda m: escape_char(m[0]), src)
+
+    for node in el.iter():
+        if node not in protected and not isinstance(node, etree._Entity):
+            node.text = escape_spaces(node.text)
+        if node is not el:
+            node.tail = escape_spaces(node.tail)
     if el.text and el.text.startswith((" ", "@", "?")):
         el.text = escape_char(el.text[0]) + el.text[1:]
     if len(el) > 0:
-- 
2.43.0


From 34e423b81ce4a08387c25aeff32a24cb19581b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:46 +0000
Subject: [PATCH 110/141] fix: keep the contents and names of Android protected
 spans

---
 python/moz/l10n/formats/android/parse.py     | 30 ++++++++++++++----
 python/moz/l10n/formats/android/serialize.py | 32 +++++++++-----------
 2 files changed, 38 insertions(+), 24 deletions(-)

diff --git a/python/moz/l10n/formats/android/parse.py b/python/moz/l10n/formats/android/parse.py
index 8bd7c37..6dd20d3 100644
--- a/python/moz/l10n/formats/android/parse.py
+++ b/python/moz/l10n/formats/android/parse.py
@@ -357,7 +357,7 @@ def flatten(el: etree._Element) -> Iterator[str | Expression | Markup]:
                 else str(child.tag)
             )
             if child.tag == xliff_g:
-                body = list(flatten(child))
+                body = list(flatten(child)) or [""]
                 if any(
                     (
                         isinstance(gc, Expression)
@@ -384,7 +384,9 @@ def flatten(el: etree._Element) -> Iterator[str | Expression | Markup]:
                                 arg = VariableRef(get_var_name(gc))
                                 attr["source"] = gc
                             else:
-                                arg = gc
+                                arg = unescape(gc)
+                                if escape_part(arg) != gc:
+                                    attr["source"] = gc
                             if options:
                                 yield Expression(arg, name, options, attributes=attr)
                             else:
@@ -455,6 +457,24 @@ def unescape(src: str) -> str:
     return escape_re.sub(replace, src)
 
 
+# Special Android characters
+android_escape = str.maketrans(
+    {"\\": r"\\", "\n": r"\n", "\t": r"\t", "'": r"\'", '"': r"\""}
+)
+
+# Control codes are not valid in XML, and nonstandard whitespace needs escaping
+control_chars = compile(r"[\x00-\x1F\x7F-\x9F\uD800-\uDFFF\uFFFE\uFFFF]|[^\S ]|(?<= ) ")
+
+
+def escape_char(ch: str) -> str:
+    return f"\\u{ord(ch):04x}"
+
+
+def escape_part(src: str) -> str:
+    res = src.translate(android_escape)
+    return control_chars.sub(lambda m: escape_char(m.group()), res)
+
+
 inline_re = compile(
     r"((?:\\u[0-9a-fA-F]{4})+)|"
     r"\\(.)|"
@@ -555,7 +575,7 @@ def parse_inline(
 
 arg_idx = compile(r"%([1-9]\$)?")
 not_name_char = compile(f"[^{xml_name_start}{xml_name_rest}]")
-not_name_start = compile(f"[^{xml_name_start}]")
+not_name_start = compile(f"^[^{xml_name_start}]+")
 
 
 def get_var_name(src: str) -> str:
@@ -563,7 +583,5 @@ def get_var_name(src: str) -> str:
     pm = arg_idx.match(src)
     if pm:
         return f"arg{pm[1][0]}" if pm[1] else "arg"
-    name = not_name_char.sub("", src)
-    if not_name_start.match(name):
-        name = name[1:]
+    name = not_name_start.sub("", not_name_char.sub("", src))
     return name or "arg"
diff --git a/python/moz/l10n/formats/android/serialize.py b/python/moz/l10n/formats/android/serialize.py
index da035e1..d23b320 100644
--- a/python/moz/l10n/formats/android/serialize.py
+++ b/python/moz/l10n/formats/android/serialize.py
@@ -34,6 +34,9 @@ from ...model import (
 )
 from .parse import (
     block_tag_re,
+    escape_char,
+    escape_part,
+    get_var_name,
     plural_categories,
     resource_ref,
     xliff_g,
@@ -354,7 +357,7 @@ def set_pattern(
             ent_name = entity_name(part)
             if part.attributes.get("translate", None) == "no":
                 # <xliff:g>
-                attrib = cast(dict[str, str], part.options) if part.function else None
+                attrib = cast(dict[str, str], part.options) if part.function else {}
                 nsmap = {"xliff": xliff_ns} if not el.nsmap.get("xliff", None) else None
                 node = etree.SubElement(parent, xliff_g, attrib=attrib, nsmap=nsmap)
                 protected.append(node)
@@ -369,6 +372,16 @@ def set_pattern(
                         node.text = escape_part(part.arg)
                     elif isinstance(part.arg, VariableRef):
                         node.text = part.arg.name
+                if (
+                    isinstance(part.arg, VariableRef)
+                    and not ent_name
+                    and not node.get("id")
+                ):
+                    text = node.text or ""
+                    if not text.startswith(("%", "{")) or (
+                        get_var_name(text) != part.arg.name
+                    ):
+                        node.set("id", part.arg.name)
             elif ent_name:
                 node = etree.Entity(ent_name)
                 parent.append(node)
@@ -430,29 +443,12 @@ def entity_name(part: Expression) -> str | None:
     return None
 
 
-# Special Android characters
-android_escape = str.maketrans(
-    {"\\": r"\\", "\n": r"\n", "\t": r"\t", "'": r"\'", '"': r"\""}
-)
-
-# Control codes are not valid in XML, and nonstandard whitespace needs escaping
-control_chars = compile(r"[\x00-\x1F\x7F-\x9F\uD800-\uDFFF\uFFFE\uFFFF]|[^\S ]|(?<= ) ")
-
 # Spaces that would otherwise be collapsed, or parsed as newlines
 special_spaces = compile(
     rf"(?<= ) | (?={block_tag_re.pattern}[^%>]*>)|(?<=<[bh]r>) |(?<=<[bh]r/>) "
 )
 
 
-def escape_char(ch: str) -> str:
-    return f"\\u{ord(ch):04x}"
-
-
-def escape_part(src: str) -> str:
-    res = src.translate(android_escape)
-    return control_chars.sub(lambda m: escape_char(m.group()), res)
-
-
 def escape_pattern(
     el: etree._Element, protected: Collection[etree._Element] = ()
 ) -> None:
-- 
2.43.0


From 1e3ba920b923b6d9b0aaeb96c38a637a5a74d925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:47 +0000
Subject: [PATCH 111/141] fix: parse ampersands and quotes in Android entity
 values

---
 python/moz/l10n/formats/android/parse.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/python/moz/l10n/formats/android/parse.py b/python/moz/l10n/formats/android/parse.py
index 6dd20d3..238a607 100644
--- a/python/moz/l10n/formats/android/parse.py
+++ b/python/moz/l10n/formats/android/parse.py
@@ -265,19 +265,26 @@ def comment_str(body: list[str | None]) -> str:
 
 
 entity_ref = compile(f"&({xml_name.pattern});")
+entity_chars = {"amp": "&", "quot": '"'}
 
 
 def parse_entity_value(src: str | None) -> Iterator[str | Expression]:
     if src:
         pos = 0
+        text = ""
         for m in entity_ref.finditer(src):
-            start = m.start()
-            if start > pos:
-                yield src[pos:start]
-            yield Expression(VariableRef(m[1]), "entity")
+            text += src[pos : m.start()]
+            if m[1] in entity_chars:
+                text += entity_chars[m[1]]
+            else:
+                if text:
+                    yield text
+                    text = ""
+                yield Expression(VariableRef(m[1]), "entity")
             pos = m.end()
-        if pos < len(src):
-            yield src[pos:]
+        text += src[pos:]
+        if text:
+            yield text
 
 
 def parse_plurals(
-- 
2.43.0


From 1c9767722abfdd8c58565c812658b3c4d61a1e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:48 +0000
Subject: [PATCH 112/141] fix: keep the line separators of Android comments

---
 python/moz/l10n/formats/android/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/android/parse.py b/python/moz/l10n/formats/android/parse.py
index 238a607..ac98c95 100644
--- a/python/moz/l10n/formats/android/parse.py
+++ b/python/moz/l10n/formats/android/parse.py
@@ -259,7 +259,7 @@ def comment_str(body: list[str | None]) -> str:
                 lines.append(comment.replace("\n   - ", "\n").strip(" "))
             else:
                 lines.append(
-                    "\n".join(line.strip() for line in comment.splitlines()).strip("\n")
+                    "\n".join(line.strip() for line in comment.split("\n")).strip("\n")
                 )
     return "\n\n".join(lines).strip("\n")
 
-- 
2.43.0


From 8fd642c7864fb35e3c5c684640e24e196b3db67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:49 +0000
Subject: [PATCH 113/141] fix: keep the namespaces of Android resources and
 markup

---
 python/moz/l10n/formats/android/serialize.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/python/moz/l10n/formats/android/serialize.py b/python/moz/l10n/formats/android/serialize.py
index d23b320..c3ddb9f 100644
--- a/python/moz/l10n/formats/android/serialize.py
+++ b/python/moz/l10n/formats/android/serialize.py
@@ -159,7 +159,11 @@ def android_serialize(
                 add_comment(root, entry.comment, True)
                 string_array = None
 
-    etree.cleanup_namespaces(root, {"xliff": xliff_ns})
+    etree.cleanup_namespaces(
+        root,
+        {"xliff": xliff_ns},
+        keep_ns_prefixes=[ns for ns in root_nsmap if ns is not None],
+    )
 
     # Can't use the built-in pretty-printing,
     # as standalone comments need a trailing empty line.
@@ -409,19 +413,21 @@ def set_pattern(
         elif any(isinstance(value, VariableRef) for value in part.options.values()):
             raise ValueError(f"Unsupported markup with variable option: {part}")
         else:
+            nsmap = None
             if part.attributes.get("translate", None) == "no":
                 name = f"{{{xliff_ns}}}g"
             elif ":" in part.name:
                 ns, local = part.name.split(":", 1)
                 xmlns = el.nsmap.get(ns, xliff_ns if ns == "xliff" else ns)
                 name = f"{{{xmlns}}}{local}"
+                nsmap = {ns: xmlns}
             else:
                 name = part.name
             attrib = cast(dict[str, str], part.options)
             if part.kind == "standalone":
-                node = etree.SubElement(parent, name, attrib=attrib)
+                node = etree.SubElement(parent, name, attrib=attrib, nsmap=nsmap)
             elif part.kind == "open":
-                parent = etree.SubElement(parent, name, attrib=attrib)
+                parent = etree.SubElement(parent, name, attrib=attrib, nsmap=nsmap)
                 node = None
             elif parent != el and name == parent.tag:  # kind == 'close'
                 node = parent
-- 
2.43.0


From 0798adaad93f547ba786fd2aea8d0e92904f4f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:50 +0000
Subject: [PATCH 114/141] fix: refuse Android content that cannot be written

---
 python/moz/l10n/formats/android/serialize.py | 31 +++++++++++++++-----
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/python/moz/l10n/formats/android/serialize.py b/python/moz/l10n/formats/android/serialize.py
index c3ddb9f..340b4e0 100644
--- a/python/moz/l10n/formats/android/serialize.py
+++ b/python/moz/l10n/formats/android/serialize.py
@@ -77,17 +77,23 @@ def android_serialize(
 
     yield '<?xml version="1.0" encoding="utf-8"?>\n'
     if resource.comment and not trim_comments:
-        yield f"\n<!--{comment_body(resource.comment, 0)}-->\n\n"
+        body = comment_body(resource.comment, 0)
+        etree.Comment(body)  # raises an error for characters not allowed in XML
+        yield f"\n<!--{body}-->\n\n"
 
     # The nsmap needs to be set during creation
     # https://bugs.launchpad.net/lxml/+bug/555602
-    root_nsmap: dict[str | None, str] = {}
+    root_nsmap: dict[str, str] = {}
     root_attrib = {}
+    seen_meta = set()
     for m in resource.meta:
         k = m.key
         v = str(m.value)
+        if k in seen_meta:
+            raise ValueError(f"Duplicate resource metadata: {k}")
+        seen_meta.add(k)
         if k == "xmlns":
-            root_nsmap[None] = v
+            raise ValueError("A default namespace is not supported")
         elif k.startswith("xmlns:"):
             root_nsmap[k[6:]] = v
         else:
@@ -106,7 +112,13 @@ def android_serialize(
             if section.id == ("!ENTITY",):
                 for entry in section.entries:
                     if isinstance(entry, Entry):
+                        if entry.comment and not trim_comments:
+                            raise ValueError(
+                                f"Entity comments are not supported: {entry.id}"
+                            )
                         entities.append(entity_definition(entry))
+                    elif not trim_comments:
+                        raise ValueError("Entity comments are not supported")
                 continue
             else:
                 raise ValueError(f"Unsupported section id: {section.id}")
@@ -162,7 +174,7 @@ def android_serialize(
     etree.cleanup_namespaces(
         root,
         {"xliff": xliff_ns},
-        keep_ns_prefixes=[ns for ns in root_nsmap if ns is not None],
+        keep_ns_prefixes=list(root_nsmap),
     )
 
     # Can't use the built-in pretty-printing,
@@ -222,7 +234,9 @@ def get_attrib(name: str, meta: list[Metadata]) -> dict[str, str]:
     for m in meta:
         if m.key == "name":
             raise ValueError(f'Unsupported "name" metadata for {name}')
-        res[m.key] = m.value
+        if m.key in res:
+            raise ValueError(f"Duplicate {m.key} metadata for {name}")
+        res[m.key] = str(m.value)
     return res
 
 
@@ -245,6 +259,8 @@ def add_comment(el: etree._Element, content: str, standalone: bool) -> None:
 
 
 def entity_definition(entry: Entry[str] | Entry[Message]) -> str:
+    if entry.meta:
+        raise ValueError(f"Entity metadata is not supported: {entry.id}")
     if len(entry.id) != 1 or not xml_name.fullmatch(entry.id[0]):
         raise ValueError(f"Invalid entity identifier: {entry.id}")
     name = entry.id[0]
@@ -270,6 +286,7 @@ def entity_definition(entry: Entry[str] | Entry[Message]) -> str:
     else:
         raise ValueError(f"Unsupported entity value: {entry.value}")
 
+    etree.Comment(value.replace("-", ""))  # raises an error, as above
     return f'<!ENTITY {name} "{value}">'
 
 
@@ -401,8 +418,6 @@ def set_pattern(
                 source = None
                 if isinstance(part.arg, str):
                     source = escape_part(part.arg)
-                elif isinstance(part.arg, VariableRef):
-                    source = part.arg.name
                 if source is not None:
                     if node is None:
                         parent.text = parent.text + source if parent.text else source
@@ -434,6 +449,8 @@ def set_pattern(
                 parent = cast(etree._Element, parent.getparent())
             else:
                 raise ValueError(f"Improper element nesting for {part} in {parent}")
+    if parent is not el:
+        raise ValueError(f"Unclosed markup: {parent.tag!s}")
     escape_pattern(el, protected)
     if allow_cdata and len(el) == 0 and el.text and needs_cdata(el.text):
         el.text = etree.CDATA(el.text)
-- 
2.43.0


From 76b4f9171e357073e8ad516c39d07c6f65caa8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:44 +0000
Subject: [PATCH 115/141] fix: do not take an Android space or HTML tag as a
 printf conversion

---
 python/moz/l10n/formats/android/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/android/parse.py b/python/moz/l10n/formats/android/parse.py
index ac98c95..01ad14e 100644
--- a/python/moz/l10n/formats/android/parse.py
+++ b/python/moz/l10n/formats/android/parse.py
@@ -486,7 +486,7 @@ inline_re = compile(
     r"((?:\\u[0-9a-fA-F]{4})+)|"
     r"\\(.)|"
     r"(<[^%>]+>)|"
-    r"(%(?:[1-9]\$|<)?[-#+ 0,(]?[0-9.]*([tT]?[^\\\n]))"
+    r"(%(?:[1-9]\$|<(?=[-#+ 0,(]?[0-9.]*[a-zA-Z]))?[-#+ 0,(]?[0-9.]*([tT]?[^\\\s<]))"
 )
 block_tag_re = compile(r"<(div|h[123456r]|p|d[dt]|li|/?[dou]l)\b")
 break_tag_re = compile(r"<[bh]r/?>")
-- 
2.43.0


From 2f249554ad509a71cc3ea061b830cb3d3289fc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:46 +0000
Subject: [PATCH 116/141] fix: refuse variable options of Android expressions

---
 python/moz/l10n/formats/android/serialize.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/android/serialize.py b/python/moz/l10n/formats/android/serialize.py
index 340b4e0..a072a16 100644
--- a/python/moz/l10n/formats/android/serialize.py
+++ b/python/moz/l10n/formats/android/serialize.py
@@ -378,7 +378,10 @@ def set_pattern(
             ent_name = entity_name(part)
             if part.attributes.get("translate", None) == "no":
                 # <xliff:g>
-                attrib = cast(dict[str, str], part.options) if part.function else {}
+                options = part.options if part.function else {}
+                if any(isinstance(value, VariableRef) for value in options.values()):
+                    raise ValueError(f"Unsupported variable option: {part}")
+                attrib = cast(dict[str, str], options)
                 nsmap = {"xliff": xliff_ns} if not el.nsmap.get("xliff", None) else None
                 node = etree.SubElement(parent, xliff_g, attrib=attrib, nsmap=nsmap)
                 protected.append(node)
-- 
2.43.0


From 83d75a4c673be47434333c84dd9c18e475f7cdb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:28 +0000
Subject: [PATCH 117/141] fix: keep section comments in place among Android
 string array items

---
 python/moz/l10n/formats/android/serialize.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/moz/l10n/formats/android/serialize.py b/python/moz/l10n/formats/android/serialize.py
index a072a16..722b126 100644
--- a/python/moz/l10n/formats/android/serialize.py
+++ b/python/moz/l10n/formats/android/serialize.py
@@ -108,6 +108,7 @@ def android_serialize(
             raise ValueError("Section metadata is not supported")
         if section.comment and not trim_comments:
             add_comment(root, section.comment, True)
+            string_array = None
         if section.id:
             if section.id == ("!ENTITY",):
                 for entry in section.entries:
-- 
2.43.0


From 292b6ea3ea1186309f76404a36ece3e3f3534b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:03 +0000
Subject: [PATCH 118/141] fix: use the xliff prefix for protected Android
 markup in a message

---
 python/moz/l10n/formats/android/serialize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/android/serialize.py b/python/moz/l10n/formats/android/serialize.py
index 722b126..68190e4 100644
--- a/python/moz/l10n/formats/android/serialize.py
+++ b/python/moz/l10n/formats/android/serialize.py
@@ -434,7 +434,8 @@ def set_pattern(
         else:
             nsmap = None
             if part.attributes.get("translate", None) == "no":
-                name = f"{{{xliff_ns}}}g"
+                name = xliff_g
+                nsmap = None if "xliff" in el.nsmap else {"xliff": xliff_ns}
             elif ":" in part.name:
                 ns, local = part.name.split(":", 1)
                 xmlns = el.nsmap.get(ns, xliff_ns if ns == "xliff" else ns)
-- 
2.43.0


From 67f6e4a7297894b253f6e1661f0b0a8734738d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:28 +0000
Subject: [PATCH 119/141] fix: refuse duplicate Android entities

---
 python/moz/l10n/formats/android/serialize.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/python/moz/l10n/formats/android/serialize.py b/python/moz/l10n/formats/android/serialize.py
index 68190e4..6b0d2b1 100644
--- a/python/moz/l10n/formats/android/serialize.py
+++ b/python/moz/l10n/formats/android/serialize.py
@@ -100,7 +100,7 @@ def android_serialize(
             root_attrib[k] = v
     root = etree.Element("resources", attrib=root_attrib, nsmap=root_nsmap)
 
-    entities = []
+    entities: dict[str, str] = {}
     string_array: etree._Element | None = None
     array_length = 0
     for section in resource.sections:
@@ -117,7 +117,10 @@ def android_serialize(
                             raise ValueError(
                                 f"Entity comments are not supported: {entry.id}"
                             )
-                        entities.append(entity_definition(entry))
+                        definition = entity_definition(entry)
+                        if entry.id[0] in entities:
+                            raise ValueError(f"Duplicate entity: {entry.id[0]}")
+                        entities[entry.id[0]] = definition
                     elif not trim_comments:
                         raise ValueError("Entity comments are not supported")
                 continue
@@ -199,7 +202,7 @@ def android_serialize(
 
     if entities:
         yield "<!DOCTYPE resources [\n"
-        for entity in entities:
+        for entity in entities.values():
             yield f"  {entity}\n"
         yield "]>\n"
     # Elements with an empty text are not self-closing
-- 
2.43.0


From 49cb3c4f0bf90fa207468402f434f52d17cc8543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:10 +0000
Subject: [PATCH 120/141] fix: do not take a double quote as an Android printf
 conversion

---
 python/moz/l10n/formats/android/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/android/parse.py b/python/moz/l10n/formats/android/parse.py
index 01ad14e..26e2447 100644
--- a/python/moz/l10n/formats/android/parse.py
+++ b/python/moz/l10n/formats/android/parse.py
@@ -486,7 +486,7 @@ inline_re = compile(
     r"((?:\\u[0-9a-fA-F]{4})+)|"
     r"\\(.)|"
     r"(<[^%>]+>)|"
-    r"(%(?:[1-9]\$|<(?=[-#+ 0,(]?[0-9.]*[a-zA-Z]))?[-#+ 0,(]?[0-9.]*([tT]?[^\\\s<]))"
+    r"(%(?:[1-9]\$|<(?=[-#+ 0,(]?[0-9.]*[a-zA-Z]))?[-#+ 0,(]?[0-9.]*([tT]?[^\\\s<\"]))"
 )
 block_tag_re = compile(r"<(div|h[123456r]|p|d[dt]|li|/?[dou]l)\b")
 break_tag_re = compile(r"<[bh]r/?>")
-- 
2.43.0


From 0748d0af9d54a65de451f81291dac4c882698a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:12 +0000
Subject: [PATCH 121/141] fix: notice XLIFF elements that have no children

The truth value of an lxml element says whether it has child elements, so
duplicate <body> and <target> elements were not noticed, and a later one
replaced an earlier one.
---
 python/moz/l10n/formats/xliff/parse.py            | 2 +-
 python/moz/l10n/formats/xliff/parse_trans_unit.py | 2 +-
 python/moz/l10n/formats/xliff/serialize.py        | 4 +++-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/python/moz/l10n/formats/xliff/parse.py b/python/moz/l10n/formats/xliff/parse.py
index 2c8c8f9..a9ef48c 100644
--- a/python/moz/l10n/formats/xliff/parse.py
+++ b/python/moz/l10n/formats/xliff/parse.py
@@ -113,7 +113,7 @@ def xliff_parse(
                 elif child.tag == f"{ns}header":
                     meta += element_as_metadata(child, "header", True)
                 elif child.tag == f"{ns}body":
-                    if body:
+                    if body is not None:
                         raise ValueError(f"Duplicate <body> in <file>: {file}")
                     body = child
                 else:
diff --git a/python/moz/l10n/formats/xliff/parse_trans_unit.py b/python/moz/l10n/formats/xliff/parse_trans_unit.py
index 0dcfad7..9e36cd8 100644
--- a/python/moz/l10n/formats/xliff/parse_trans_unit.py
+++ b/python/moz/l10n/formats/xliff/parse_trans_unit.py
@@ -53,7 +53,7 @@ def parse_trans_unit(
         else:
             name = pretty_name(el, str(el.tag))
             if name == msg_name:
-                if msg_el:
+                if msg_el is not None:
                     raise ValueError(
                         f"Duplicate <{msg_name}> in <trans-unit> {id}: {unit}"
                     )
diff --git a/python/moz/l10n/formats/xliff/serialize.py b/python/moz/l10n/formats/xliff/serialize.py
index 1f15b56..0b1ed8d 100644
--- a/python/moz/l10n/formats/xliff/serialize.py
+++ b/python/moz/l10n/formats/xliff/serialize.py
@@ -226,7 +226,9 @@ def add_unit(
         and unit.find("note") is None
     ):
         if msg_el is None:
-            prev_el = unit.find("target") or unit.find("source")
+            prev_el = unit.find("target")
+            if prev_el is None:
+                prev_el = unit.find("source")
             if prev_el is None:
                 raise ValueError(f"Invalid entry with no source: {unit}")
         else:
-- 
2.43.0


From 160ef0eb9985917564066d82fcc46ca25d1cec6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:15 +0000
Subject: [PATCH 122/141] fix: write the comment of an XLIFF file before it

It was written inside the <file>, where it is parsed as a standalone comment.
---
 python/moz/l10n/formats/xliff/serialize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/xliff/serialize.py b/python/moz/l10n/formats/xliff/serialize.py
index 0b1ed8d..9da619f 100644
--- a/python/moz/l10n/formats/xliff/serialize.py
+++ b/python/moz/l10n/formats/xliff/serialize.py
@@ -111,7 +111,8 @@ def xliff_serialize(
         indent = 2 * len(section.id)
         if section.comment and not trim_comments:
             comment = etree.Comment(comment_body(section.comment, indent))
-            parent.addprevious(comment)
+            el = parent.getparent() if len(section.id) == 1 else parent
+            cast(etree._Element, el).addprevious(comment)
 
         indent += 2
         for entry in section.entries:
-- 
2.43.0


From 15614f61206922edd43adaae1d1063c502d586ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:18 +0000
Subject: [PATCH 123/141] fix: parse comments, namespaces and Xcode strings
 next to XLIFF inline elements

Comments in a <source> or <target> failed, elements and attributes with a
namespace could not be serialized, and Xcode printf strings were found only
before the first element.
---
 .../l10n/formats/xliff/parse_trans_unit.py    | 29 ++++++++++---------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/python/moz/l10n/formats/xliff/parse_trans_unit.py b/python/moz/l10n/formats/xliff/parse_trans_unit.py
index 9e36cd8..f688fb3 100644
--- a/python/moz/l10n/formats/xliff/parse_trans_unit.py
+++ b/python/moz/l10n/formats/xliff/parse_trans_unit.py
@@ -16,7 +16,6 @@ from __future__ import annotations
 
 from collections import defaultdict
 from collections.abc import Iterator
-from typing import cast
 
 from lxml import etree
 
@@ -29,7 +28,7 @@ from ...model import (
     PatternMessage,
     VariableRef,
 )
-from .common import attrib_as_metadata, element_as_metadata, pretty_name, xliff_ns
+from .common import attrib_as_metadata, element_as_metadata, pretty_name
 from .parse_xcode import parse_xcode_pattern
 
 
@@ -86,15 +85,19 @@ def parse_pattern(
         else:
             yield el.text
     for child in el:
-        q = etree.QName(cast(str, child.tag))
-        ns = q.namespace
-        name = q.localname if not ns or ns in xliff_ns else q.text
-        options: dict[str, str | VariableRef] = dict(child.attrib)
-        if name in ("x", "bx", "ex"):
-            yield Markup("standalone", name, options)
-        elif isinstance(child.tag, str):
-            yield Markup("open", name, options)
-            yield from parse_pattern(child, is_xcode)
-            yield Markup("close", name)
+        if isinstance(child.tag, str):
+            name = pretty_name(child, child.tag)
+            options: dict[str, str | VariableRef] = {
+                pretty_name(child, key): value for key, value in child.attrib.items()
+            }
+            if name in ("x", "bx", "ex"):
+                yield Markup("standalone", name, options)
+            else:
+                yield Markup("open", name, options)
+                yield from parse_pattern(child, is_xcode)
+                yield Markup("close", name)
         if child.tail:
-            yield child.tail
+            if is_xcode:
+                yield from parse_xcode_pattern(child.tail)
+            else:
+                yield child.tail
-- 
2.43.0


From 07841c95b504d09463af34c3d9a6deb6bd7a0d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:21 +0000
Subject: [PATCH 124/141] fix: parse the q, z, t and j modifiers and %F in
 Xcode strings

---
 python/moz/l10n/formats/xliff/parse_xcode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/formats/xliff/parse_xcode.py b/python/moz/l10n/formats/xliff/parse_xcode.py
index 6038374..8f366db 100644
--- a/python/moz/l10n/formats/xliff/parse_xcode.py
+++ b/python/moz/l10n/formats/xliff/parse_xcode.py
@@ -66,7 +66,7 @@ plural_categories = ("zero", "one", "two", "few", "many", "other")
 variant_key = compile(r"%#@([a-zA-Z_]\w*)@")
 # https://developer.apple.com/library/archive/documentation/Cocoa/Conceptual/Strings/Articles/formatSpecifiers.html
 printf = compile(
-    r"%([1-9]\$)?(?:#@([a-zA-Z_]\w*)@|[-#+ 0,]?[0-9.]*(?:(?:hh?|ll?|qztj)[douxX]|L[aAeEfFgG]|[@%aAcCdDeEfFgGoOspSuUxX]))"
+    r"%([1-9]\$)?(?:#@([a-zA-Z_]\w*)@|[-#+ 0,]?[0-9.]*(?:(?:hh?|ll?|[qztj])[douxX]|L[aAeEfFgG]|[@%aAcCdDeEfFgGoOspSuUxX]))"
 )
 not_first_placeholder = compile(r"%[2-9]\$")
 
@@ -521,7 +521,7 @@ def parse_xcode_pattern(src: str | None) -> Iterator[str | Expression]:
                 elif format in {"d", "D", "o", "O", "p", "u", "U", "x", "X"}:
                     name = "int"
                     func = "integer"
-                elif format in {"a", "A", "e", "E", "f", "g", "G"}:
+                elif format in {"a", "A", "e", "E", "f", "F", "g", "G"}:
                     name = "num"
                     func = "number"
                 else:
-- 
2.43.0


From eeb812ea7f99110db45f7b0584dd9b6eeb6b2ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:54 +0000
Subject: [PATCH 125/141] fix: keep the whitespace of XLIFF sources and targets

Whitespace between inline elements was dropped from those held as metadata,
and was added by pretty-printing between elements with no text next to them.
---
 python/moz/l10n/formats/xliff/common.py    | 11 +++++++----
 python/moz/l10n/formats/xliff/serialize.py |  7 ++++++-
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/python/moz/l10n/formats/xliff/common.py b/python/moz/l10n/formats/xliff/common.py
index bc3f1b9..4389ddf 100644
--- a/python/moz/l10n/formats/xliff/common.py
+++ b/python/moz/l10n/formats/xliff/common.py
@@ -31,16 +31,19 @@ xcode_tool_id = Metadata("header/tool/@tool-id", "com.apple.dt.xcode")
 
 
 def element_as_metadata(
-    el: _Element, base: str, with_attrib: bool
+    el: _Element, base: str, with_attrib: bool, keep_space: bool = False
 ) -> Iterator[Metadata]:
     is_empty = True
+    # Whitespace between inline elements is a part of the content.
+    if pretty_name(el, str(el.tag)) in ("source", "target", "seg-source"):
+        keep_space = True
     seen: dict[str, int] = defaultdict(int)
     if with_attrib:
         am = attrib_as_metadata(el, base)
         if am:
             yield from am
             is_empty = False
-    if el.text and not el.text.isspace():
+    if el.text and (keep_space or not el.text.isspace()):
         yield Metadata(base, el.text)
         is_empty = False
     for child in el:
@@ -52,11 +55,11 @@ def element_as_metadata(
             child_base = f"{base}/{name}" if base else name
             if idx > 1:
                 child_base += f"[{idx}]"
-            yield from element_as_metadata(child, child_base, True)
+            yield from element_as_metadata(child, child_base, True, keep_space)
             seen[name] = idx
         else:
             raise ValueError(f"Unsupported metadata element in {base}: {el}")
-        if child.tail and not child.tail.isspace():
+        if child.tail and (keep_space or not child.tail.isspace()):
             yield Metadata(base, child.tail)
         is_empty = False
     if is_empty and with_attrib:
diff --git a/python/moz/l10n/formats/xliff/serialize.py b/python/moz/l10n/formats/xliff/serialize.py
index 9da619f..d1978f6 100644
--- a/python/moz/l10n/formats/xliff/serialize.py
+++ b/python/moz/l10n/formats/xliff/serialize.py
@@ -176,6 +176,11 @@ def xliff_serialize(
             else:
                 fn = section.id[0]
                 raise ValueError(f"Unsupported message {id} in file: {fn}")
+
+    for el in root.iter("source", "target", "seg-source"):
+        # Whitespace is significant here, so disable pretty-printing
+        if len(el) > 0 and not el.text:
+            el.text = ""
     yield etree.tostring(root, encoding="unicode", pretty_print=True)
 
 
@@ -184,7 +189,7 @@ def xliff_serialize_message(msg: Message) -> str:
         raise ValueError(f"Unsupported message: {msg}")
     target = etree.Element("target")
     set_pattern(target, msg.pattern)
-    str = etree.tostring(target, encoding="unicode", pretty_print=True).strip()
+    str = etree.tostring(target, encoding="unicode")
     if str == "<target/>":
         return ""
     if not str.startswith("<target>"):
-- 
2.43.0


From 8ee98d0e79bd043cf32565f25401c24991c85b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:56 +0000
Subject: [PATCH 126/141] fix: write the <source> of an XLIFF entry also if it
 is empty

It is required, and an Xcode file without one cannot be parsed.
---
 python/moz/l10n/formats/xliff/serialize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/xliff/serialize.py b/python/moz/l10n/formats/xliff/serialize.py
index d1978f6..a5a674a 100644
--- a/python/moz/l10n/formats/xliff/serialize.py
+++ b/python/moz/l10n/formats/xliff/serialize.py
@@ -209,7 +209,8 @@ def add_unit(
     assign_metadata(unit, meta, trim_comments)
 
     msg_el = None
-    if pattern:  # only non-empty for <trans-unit>
+    # The pattern is only non-empty for <trans-unit>
+    if pattern or (source_entries and unit.tag == "trans-unit"):
         if source_entries:
             msg_el = unit.find("source")
             if msg_el is None:
-- 
2.43.0


From 05595c63cf762210ff5e34cd405dbfaba7e197d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:57 +0000
Subject: [PATCH 127/141] fix: refuse XLIFF markup that is not closed

---
 python/moz/l10n/formats/xliff/serialize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/moz/l10n/formats/xliff/serialize.py b/python/moz/l10n/formats/xliff/serialize.py
index a5a674a..4e31de4 100644
--- a/python/moz/l10n/formats/xliff/serialize.py
+++ b/python/moz/l10n/formats/xliff/serialize.py
@@ -497,3 +497,5 @@ def set_pattern(el: etree._Element, pattern: Pattern) -> None:
                 add_text(part_source)
             else:
                 raise ValueError(f"Unsupported expression: {part}")
+    if parent != el:
+        raise ValueError(f"Improper element nesting: <{parent.tag}> is not closed")
-- 
2.43.0


From 32a3744874f11811a445426f01a9871c24763b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:58 +0000
Subject: [PATCH 128/141] fix: do not repeat the metadata of an XLIFF group on
 its parents

---
 python/moz/l10n/formats/xliff/serialize.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/formats/xliff/serialize.py b/python/moz/l10n/formats/xliff/serialize.py
index 4e31de4..2e81624 100644
--- a/python/moz/l10n/formats/xliff/serialize.py
+++ b/python/moz/l10n/formats/xliff/serialize.py
@@ -100,13 +100,15 @@ def xliff_serialize(
         parent = prev[parent_key] if parent_key else root
         for id_part in section.id[len(parent_key) :]:
             parent_key += (id_part,)
+            # Implicit parents have no metadata of their own
+            meta = section.meta if len(parent_key) == len(section.id) else []
             if parent == root:
                 file = etree.SubElement(root, "file", {"original": id_part})
-                assign_metadata(file, section.meta, trim_comments)
+                assign_metadata(file, meta, trim_comments)
                 parent = etree.SubElement(file, "body")
             else:
                 parent = etree.SubElement(parent, "group", {"id": id_part})
-                assign_metadata(parent, section.meta, trim_comments)
+                assign_metadata(parent, meta, trim_comments)
             prev[parent_key] = parent
         indent = 2 * len(section.id)
         if section.comment and not trim_comments:
-- 
2.43.0


From 99972576241666ce6218b9c1a49072529257c781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:00 +0000
Subject: [PATCH 129/141] fix: keep the line separators of XLIFF comments

---
 python/moz/l10n/formats/xliff/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/xliff/parse.py b/python/moz/l10n/formats/xliff/parse.py
index a9ef48c..0a5937e 100644
--- a/python/moz/l10n/formats/xliff/parse.py
+++ b/python/moz/l10n/formats/xliff/parse.py
@@ -239,6 +239,6 @@ def comment_str(body: list[str] | str) -> str:
                 lines.append(comment.replace("\n   - ", "\n").strip(" "))
             else:
                 lines.append(
-                    "\n".join(line.strip() for line in comment.splitlines()).strip("\n")
+                    "\n".join(line.strip() for line in comment.split("\n")).strip("\n")
                 )
     return "\n\n".join(lines).strip("\n")
-- 
2.43.0


From dd13a80f9c188d7d438a28aa316e29d1f4f8e2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:01 +0000
Subject: [PATCH 130/141] fix: leave empty XLIFF notes out of comments

---
 python/moz/l10n/formats/xliff/parse_trans_unit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/xliff/parse_trans_unit.py b/python/moz/l10n/formats/xliff/parse_trans_unit.py
index f688fb3..de55b0a 100644
--- a/python/moz/l10n/formats/xliff/parse_trans_unit.py
+++ b/python/moz/l10n/formats/xliff/parse_trans_unit.py
@@ -63,7 +63,7 @@ def parse_trans_unit(
                 base = f"{name}[{idx}]" if idx > 1 else name
                 meta += element_as_metadata(el, base, True)
                 seen[name] = idx
-                if name == "note" and el.text:
+                if name == "note" and el.text and not el.text.isspace():
                     author = el.attrib.get("from", "")
                     note = el.text.strip()
                     notes.append(f"{author}: {note}" if author else note)
-- 
2.43.0


From 66a10c91dd24ee0c6ecca558e9f4b599c77696d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:40 +0000
Subject: [PATCH 131/141] fix: notice duplicate units in xcstrings files

The last one replaced the others.
---
 python/moz/l10n/formats/xliff/parse_xcode.py | 24 +++++++++++++-------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/python/moz/l10n/formats/xliff/parse_xcode.py b/python/moz/l10n/formats/xliff/parse_xcode.py
index 8f366db..980f75b 100644
--- a/python/moz/l10n/formats/xliff/parse_xcode.py
+++ b/python/moz/l10n/formats/xliff/parse_xcode.py
@@ -334,22 +334,30 @@ def parse_xliff_xcstrings_unit(
         list(parse_xcode_pattern(pattern_src)),
     )
 
-    if len(id_parts) == 1:
-        units[msg_id].base = entry_data
+    def is_new(prev: object | None) -> bool:
+        if prev is not None:
+            raise ValueError(f'Duplicate <trans-unit id="{unit.attrib["id"]}">')
+        return True
+
+    data = units[msg_id]
+    if len(id_parts) == 1 and is_new(data.base):
+        data.base = entry_data
         return
     if len(id_parts) == 2:
         dim, *key = id_parts[1].split(".")
         if dim == "plural":
-            if len(key) == 1:
-                units[msg_id].plural[key[0]] = entry_data
+            if len(key) == 1 and is_new(data.plural.get(key[0])):
+                data.plural[key[0]] = entry_data
                 return
         elif dim == "substitutions":
             if len(key) == 3 and key[1] == "plural":
-                units[msg_id].substitutions[(key[0], key[2])] = entry_data
-                return
+                sub_key = (key[0], key[2])
+                if is_new(data.substitutions.get(sub_key)):
+                    data.substitutions[sub_key] = entry_data
+                    return
         elif dim == "device":
-            if len(key) == 1:
-                units[msg_id].device[key[0]] = entry_data
+            if len(key) == 1 and is_new(data.device.get(key[0])):
+                data.device[key[0]] = entry_data
                 return
 
     raise ValueError(
-- 
2.43.0


From 233e46a378cb3d473d028d937909642472b8f1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:41 +0000
Subject: [PATCH 132/141] fix: parse xcstrings substitutions of a message with
 no target

Parsing failed with a RuntimeError from the generator.
---
 python/moz/l10n/formats/xliff/parse_xcode.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/moz/l10n/formats/xliff/parse_xcode.py b/python/moz/l10n/formats/xliff/parse_xcode.py
index 980f75b..89f36a7 100644
--- a/python/moz/l10n/formats/xliff/parse_xcode.py
+++ b/python/moz/l10n/formats/xliff/parse_xcode.py
@@ -176,6 +176,9 @@ def parse_xliff_xcstrings(
                 sel_idx = msg.selectors.index(VariableRef(var_name))
                 for keys_, pattern in msg.variants.items():
                     if str(keys_[sel_idx]) == id:
+                        if not sub_pattern:
+                            pattern[:] = var_pattern
+                            continue
                         sub_ph_idx = next(
                             idx
                             for idx, el in enumerate(pattern)
-- 
2.43.0


From 7fe78b289b9645cc9919e791fc5892d1e9367682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:42 +0000
Subject: [PATCH 133/141] fix: parse comments in the <body> of Xcode plurals

They made an xcstrings file fail, and the units of a stringsdict file be
parsed as separate messages, also when written by the serializer.
---
 python/moz/l10n/formats/xliff/parse.py       | 16 ++++++++++------
 python/moz/l10n/formats/xliff/parse_xcode.py | 10 ++++++----
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/python/moz/l10n/formats/xliff/parse.py b/python/moz/l10n/formats/xliff/parse.py
index 0a5937e..349118d 100644
--- a/python/moz/l10n/formats/xliff/parse.py
+++ b/python/moz/l10n/formats/xliff/parse.py
@@ -15,7 +15,7 @@
 from __future__ import annotations
 
 from collections import defaultdict
-from collections.abc import Iterator
+from collections.abc import Iterable, Iterator
 from re import compile
 
 from lxml import etree
@@ -136,13 +136,17 @@ def xliff_parse(
 
             is_xcode = xcode_tool_id in meta
             if is_xcode:
+                xcode_entries: Iterable[Entry[Message]] | None = None
                 if file_name.endswith(".stringsdict"):
-                    plural_entries = parse_xliff_stringsdict(ns, body, source_entries)
-                    if plural_entries:
-                        entries += plural_entries
-                        continue
+                    xcode_entries = parse_xliff_stringsdict(ns, body, source_entries)
                 elif file_name.endswith(".xcstrings"):
-                    entries += parse_xliff_xcstrings(ns, body, source_entries)
+                    xcode_entries = parse_xliff_xcstrings(ns, body, source_entries)
+                if xcode_entries is not None:
+                    entries += (
+                        Comment(comment_str(comment.text))
+                        for comment in body.iterchildren(etree.Comment)
+                    )
+                    entries += xcode_entries
                     continue
 
             for unit in body:
diff --git a/python/moz/l10n/formats/xliff/parse_xcode.py b/python/moz/l10n/formats/xliff/parse_xcode.py
index 89f36a7..8892dc1 100644
--- a/python/moz/l10n/formats/xliff/parse_xcode.py
+++ b/python/moz/l10n/formats/xliff/parse_xcode.py
@@ -75,7 +75,7 @@ def parse_xliff_xcstrings(
     ns: str, body: etree._Element, from_source: bool
 ) -> Iterator[Entry[Message]]:
     units: dict[str, XcstringsMsgData] = defaultdict(XcstringsMsgData)
-    for unit in body:
+    for unit in body.iterchildren(etree.Element):
         if unit.tag != f"{ns}trans-unit":
             raise ValueError(f"Unsupported <{unit.tag!s}> element in <body>: {body}")
         if "id" not in unit.attrib:
@@ -370,9 +370,9 @@ def parse_xliff_xcstrings_unit(
 
 def parse_xliff_stringsdict(
     ns: str, body: etree._Element, from_source: bool
-) -> list[Entry[SelectMessage]] | None:
+) -> list[Entry[Message]] | None:
     plurals: dict[str, StringsdictPlural] = {}
-    for unit in body:
+    for unit in body.iterchildren(etree.Element):
         if unit.tag != f"{ns}trans-unit":
             return None
         if unit.text and not unit.text.isspace():
@@ -385,7 +385,9 @@ def parse_xliff_stringsdict(
         else:
             return None
 
-    entries = []
+    if not plurals:
+        return None
+    entries: list[Entry[Message]] = []
     for msg_id, plural in plurals.items():
         selector = Expression(
             VariableRef(plural.var_name),
-- 
2.43.0


From ee3a039abc39a59791cd147cd5e1680dfdd47cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:15 +0000
Subject: [PATCH 134/141] fix: keep the notes and format targets of stringsdict
 plurals

Notes were dropped, and the <target> of a format key was replaced by its
<source>. Comments that cannot be written are refused as before, now also
in xcstrings files.
---
 python/moz/l10n/formats/xliff/parse_xcode.py | 33 +++++++++++++++-----
 python/moz/l10n/formats/xliff/serialize.py   | 21 ++++++++++---
 2 files changed, 42 insertions(+), 12 deletions(-)

diff --git a/python/moz/l10n/formats/xliff/parse_xcode.py b/python/moz/l10n/formats/xliff/parse_xcode.py
index 8892dc1..21a85ba 100644
--- a/python/moz/l10n/formats/xliff/parse_xcode.py
+++ b/python/moz/l10n/formats/xliff/parse_xcode.py
@@ -314,11 +314,8 @@ def parse_xliff_xcstrings_unit(
     source = unit_data.source
     target = unit_data.target
     meta = attrib_as_metadata(unit_data.unit, None, ("id",))
-    comments: list[str] = []
     for note in unit_data.notes:
         meta += element_as_metadata(note, "note", True)
-        if note.text and not note.text.isspace():
-            comments.append(note.text.strip())
     if from_source:
         meta += attrib_as_metadata(source, "source")
         if target is not None:
@@ -333,7 +330,7 @@ def parse_xliff_xcstrings_unit(
             pattern_src = target.text
     entry_data: tuple[list[Metadata], str, Pattern] = (
         meta,
-        "\n\n".join(comments),
+        notes_comment(unit_data),
         list(parse_xcode_pattern(pattern_src)),
     )
 
@@ -399,8 +396,13 @@ def parse_xliff_stringsdict(
         meta: list[Metadata] = []
         if plural.format_key:
             meta += attrib_as_metadata(plural.format_key.unit, "format", ("id",))
-            if plural.format_key.target is not None:
-                meta += attrib_as_metadata(plural.format_key.target, "format/target")
+            for note in plural.format_key.notes:
+                meta += element_as_metadata(note, "format/note", True)
+            target = plural.format_key.target
+            if target is not None:
+                meta += attrib_as_metadata(target, "format/target")
+                if target.text and target.text != plural.format_key.source.text:
+                    meta.append(Metadata("format/target", target.text))
         msg = SelectMessage(
             declarations={plural.var_name: selector},
             selectors=(VariableRef(plural.var_name),),
@@ -408,6 +410,8 @@ def parse_xliff_stringsdict(
         )
         for key, variant in plural.variants.items():
             meta += attrib_as_metadata(variant.unit, key, ("id",))
+            for note in variant.notes:
+                meta += element_as_metadata(note, f"{key}/note", True)
             if from_source:
                 meta += attrib_as_metadata(variant.source, f"{key}/source")
                 if variant.target is not None:
@@ -423,7 +427,14 @@ def parse_xliff_stringsdict(
             msg.variants[(CatchallKey("other") if key == "other" else key,)] = list(
                 parse_xcode_pattern(pattern_src)
             )
-        entries.append(Entry((msg_id,), msg, meta=meta))
+        units = {"format": plural.format_key} if plural.format_key else {}
+        units.update(plural.variants)
+        comments = {key: c for key, unit in units.items() if (c := notes_comment(unit))}
+        if len(comments) == len(units) and len(set(comments.values())) == 1:
+            (comment,) = set(comments.values())
+        else:
+            comment = "\n\n".join(f"{k}: {v}" for k, v in comments.items())
+        entries.append(Entry((msg_id,), msg, comment=comment, meta=meta))
     return entries
 
 
@@ -507,6 +518,14 @@ def get_xcode_unit_data(ns: str, unit: etree._Element) -> XcodeUnitData:
     return XcodeUnitData(unit, source, target, notes)
 
 
+def notes_comment(unit_data: XcodeUnitData) -> str:
+    return "\n\n".join(
+        note.text.strip()
+        for note in unit_data.notes
+        if note.text and not note.text.isspace()
+    )
+
+
 def parse_xcode_pattern(src: str | None) -> Iterator[str | Expression]:
     if not src:
         return
diff --git a/python/moz/l10n/formats/xliff/serialize.py b/python/moz/l10n/formats/xliff/serialize.py
index 2e81624..1a1776d 100644
--- a/python/moz/l10n/formats/xliff/serialize.py
+++ b/python/moz/l10n/formats/xliff/serialize.py
@@ -261,8 +261,7 @@ def add_xliff_stringsdict_plural(
     source_entries: bool,
     trim_comments: bool,
 ) -> None:
-    if entry.comment and not trim_comments:
-        raise ValueError(f"Unsupported comment on SelectMessage: {entry.comment}")
+    check_select_comment(entry, trim_comments)
     msg = entry.value
     if len(msg.selectors) != 1:
         raise ValueError(f"Exactly one selector is required: {msg.selectors}")
@@ -349,9 +348,7 @@ def add_xcstrings_selectmessage(
     source_entries: bool,
     trim_comments: bool,
 ) -> None:
-    if entry.comment:
-        # TODO
-        pass
+    check_select_comment(entry, trim_comments)
     msg = entry.value
     msg_id = entry.id[0]
 
@@ -402,6 +399,20 @@ def add_xcstrings_selectmessage(
         add_unit(unit, "", meta, pattern, source_entries, trim_comments)
 
 
+def check_select_comment(entry: Entry[SelectMessage], trim_comments: bool) -> None:
+    if (
+        entry.comment
+        and not entry.comment.isspace()
+        and not trim_comments
+        and not any(
+            part == "note" or part.startswith("note[")
+            for m in entry.meta
+            for part in m.key.split("/")
+        )
+    ):
+        raise ValueError(f"Unsupported comment on SelectMessage: {entry.comment}")
+
+
 def assign_metadata(
     el: etree._Element, meta: list[Metadata], trim_comments: bool, base: str = ""
 ) -> None:
-- 
2.43.0


From 508d7221a76cfc5aab8954547e11d91a7c1c19b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:06 +0000
Subject: [PATCH 135/141] fix: keep the notes of an Xcode unit apart

---
 python/moz/l10n/formats/xliff/parse_xcode.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/python/moz/l10n/formats/xliff/parse_xcode.py b/python/moz/l10n/formats/xliff/parse_xcode.py
index 21a85ba..69bc4a0 100644
--- a/python/moz/l10n/formats/xliff/parse_xcode.py
+++ b/python/moz/l10n/formats/xliff/parse_xcode.py
@@ -314,8 +314,7 @@ def parse_xliff_xcstrings_unit(
     source = unit_data.source
     target = unit_data.target
     meta = attrib_as_metadata(unit_data.unit, None, ("id",))
-    for note in unit_data.notes:
-        meta += element_as_metadata(note, "note", True)
+    meta += notes_metadata(unit_data)
     if from_source:
         meta += attrib_as_metadata(source, "source")
         if target is not None:
@@ -396,8 +395,7 @@ def parse_xliff_stringsdict(
         meta: list[Metadata] = []
         if plural.format_key:
             meta += attrib_as_metadata(plural.format_key.unit, "format", ("id",))
-            for note in plural.format_key.notes:
-                meta += element_as_metadata(note, "format/note", True)
+            meta += notes_metadata(plural.format_key, "format/")
             target = plural.format_key.target
             if target is not None:
                 meta += attrib_as_metadata(target, "format/target")
@@ -410,8 +408,7 @@ def parse_xliff_stringsdict(
         )
         for key, variant in plural.variants.items():
             meta += attrib_as_metadata(variant.unit, key, ("id",))
-            for note in variant.notes:
-                meta += element_as_metadata(note, f"{key}/note", True)
+            meta += notes_metadata(variant, f"{key}/")
             if from_source:
                 meta += attrib_as_metadata(variant.source, f"{key}/source")
                 if variant.target is not None:
@@ -518,6 +515,12 @@ def get_xcode_unit_data(ns: str, unit: etree._Element) -> XcodeUnitData:
     return XcodeUnitData(unit, source, target, notes)
 
 
+def notes_metadata(unit_data: XcodeUnitData, base: str = "") -> Iterator[Metadata]:
+    for idx, note in enumerate(unit_data.notes, start=1):
+        key = f"{base}note[{idx}]" if idx > 1 else f"{base}note"
+        yield from element_as_metadata(note, key, True)
+
+
 def notes_comment(unit_data: XcodeUnitData) -> str:
     return "\n\n".join(
         note.text.strip()
-- 
2.43.0


From 4fd2b3e4e7ab6ac24f133d324728f051fe4a962d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:58 +0000
Subject: [PATCH 136/141] fix: leave blank notes out of Xcode messages

---
 python/moz/l10n/formats/xliff/parse_xcode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/xliff/parse_xcode.py b/python/moz/l10n/formats/xliff/parse_xcode.py
index 69bc4a0..8315353 100644
--- a/python/moz/l10n/formats/xliff/parse_xcode.py
+++ b/python/moz/l10n/formats/xliff/parse_xcode.py
@@ -504,7 +504,7 @@ def get_xcode_unit_data(ns: str, unit: etree._Element) -> XcodeUnitData:
             else:
                 error("Duplicate <target>")
         elif el.tag == f"{ns}note":
-            if el.attrib or el.text:
+            if el.attrib or (el.text and not el.text.isspace()):
                 notes.append(el)
         else:
             error(f"Unexpected <{el.tag!s}>")
-- 
2.43.0


From 83bef06e0454058a1769505e0cedf3b9f80bc2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:18 +0000
Subject: [PATCH 137/141] fix: do not leave a substitution in its own empty
 variants

---
 python/moz/l10n/formats/xliff/parse_xcode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/xliff/parse_xcode.py b/python/moz/l10n/formats/xliff/parse_xcode.py
index 8315353..582c1cb 100644
--- a/python/moz/l10n/formats/xliff/parse_xcode.py
+++ b/python/moz/l10n/formats/xliff/parse_xcode.py
@@ -154,7 +154,7 @@ def parse_xliff_xcstrings(
                     m.key = f"{var_name}/{id}/{m.key}"
                 entry.meta += meta
 
-                if not var_pattern:
+                if not var_pattern and var_name not in sub_vars:
                     continue
 
                 sub_decl = sub_vars.get(var_name, None)
-- 
2.43.0


From dba57f742af63cef8d735c1d7c36a78a3db3b917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:16 +0000
Subject: [PATCH 138/141] fix: Refuse to serialize entry properties where they
 are not supported

---
 python/moz/l10n/formats/android/serialize.py    | 4 ++++
 python/moz/l10n/formats/dtd/serialize.py        | 2 ++
 python/moz/l10n/formats/gettext/serialize.py    | 2 ++
 python/moz/l10n/formats/inc/serialize.py        | 2 ++
 python/moz/l10n/formats/ini/serialize.py        | 2 ++
 python/moz/l10n/formats/plain_json/serialize.py | 2 ++
 python/moz/l10n/formats/properties/serialize.py | 2 ++
 python/moz/l10n/formats/webext/serialize.py     | 2 ++
 python/moz/l10n/formats/xliff/serialize.py      | 2 ++
 9 files changed, 20 insertions(+)

diff --git a/python/moz/l10n/formats/android/serialize.py b/python/moz/l10n/formats/android/serialize.py
index 6b0d2b1..f5eeaf0 100644
--- a/python/moz/l10n/formats/android/serialize.py
+++ b/python/moz/l10n/formats/android/serialize.py
@@ -129,6 +129,8 @@ def android_serialize(
 
         for entry in section.entries:
             if isinstance(entry, Entry):
+                if entry.properties:
+                    raise ValueError(f"Properties are not supported: {entry.id}")
                 if len(entry.id) not in (1, 2):
                     raise ValueError(f"Unsupported entry id: {entry.id or entry}")
                 name = entry.id[0]
@@ -265,6 +267,8 @@ def add_comment(el: etree._Element, content: str, standalone: bool) -> None:
 def entity_definition(entry: Entry[str] | Entry[Message]) -> str:
     if entry.meta:
         raise ValueError(f"Entity metadata is not supported: {entry.id}")
+    if entry.properties:
+        raise ValueError(f"Properties are not supported: {entry.id}")
     if len(entry.id) != 1 or not xml_name.fullmatch(entry.id[0]):
         raise ValueError(f"Invalid entity identifier: {entry.id}")
     name = entry.id[0]
diff --git a/python/moz/l10n/formats/dtd/serialize.py b/python/moz/l10n/formats/dtd/serialize.py
index d437e44..63c83d0 100644
--- a/python/moz/l10n/formats/dtd/serialize.py
+++ b/python/moz/l10n/formats/dtd/serialize.py
@@ -92,6 +92,8 @@ def dtd_serialize(
         id_prefix = ".".join(section.id) + "." if section.id else ""
         for entry in section.entries:
             if isinstance(entry, Entry):
+                if entry.properties:
+                    raise ValueError(f"Properties are not supported: {entry.id}")
                 yield from comment(entry.comment, entry.meta, False)
                 name = id_prefix + ".".join(entry.id)
                 if not re_name.fullmatch(name):
diff --git a/python/moz/l10n/formats/gettext/serialize.py b/python/moz/l10n/formats/gettext/serialize.py
index 97ed9f8..00744e3 100644
--- a/python/moz/l10n/formats/gettext/serialize.py
+++ b/python/moz/l10n/formats/gettext/serialize.py
@@ -81,6 +81,8 @@ def gettext_serialize(
             raise ValueError("Section metadata is not supported")
         for entry in section.entries:
             if isinstance(entry, Entry):
+                if entry.properties:
+                    raise ValueError(f"Properties are not supported: {entry.id}")
                 context = entry.id[1] if len(entry.id) == 2 else None
                 if len(entry.id) not in (1, 2) or not (entry.id[0] or context):
                     raise ValueError(f"Unsupported identifier: {entry.id}")
diff --git a/python/moz/l10n/formats/inc/serialize.py b/python/moz/l10n/formats/inc/serialize.py
index b5cf7d2..8cc01e0 100644
--- a/python/moz/l10n/formats/inc/serialize.py
+++ b/python/moz/l10n/formats/inc/serialize.py
@@ -61,6 +61,8 @@ def inc_serialize(
             raise ValueError(f"Section identifiers not supported: {section.id}")
         for entry in section.entries:
             if isinstance(entry, Entry):
+                if entry.properties:
+                    raise ValueError(f"Properties are not supported: {entry.id}")
                 yield from comment(entry.comment, entry.meta, False)
                 if len(entry.id) != 1 or not re_name.fullmatch(entry.id[0]):
                     raise ValueError(f"Unsupported identifier: {entry.id}")
diff --git a/python/moz/l10n/formats/ini/serialize.py b/python/moz/l10n/formats/ini/serialize.py
index 678a52f..89737c5 100644
--- a/python/moz/l10n/formats/ini/serialize.py
+++ b/python/moz/l10n/formats/ini/serialize.py
@@ -71,6 +71,8 @@ def ini_serialize(
         at_empty_line = False
         for entry in section.entries:
             if isinstance(entry, Entry):
+                if entry.properties:
+                    raise ValueError(f"Properties are not supported: {entry.id}")
                 yield from comment(entry.comment, entry.meta, False)
                 msg = entry.value
                 if isinstance(msg, str):
diff --git a/python/moz/l10n/formats/plain_json/serialize.py b/python/moz/l10n/formats/plain_json/serialize.py
index ce7f213..14c3723 100644
--- a/python/moz/l10n/formats/plain_json/serialize.py
+++ b/python/moz/l10n/formats/plain_json/serialize.py
@@ -60,6 +60,8 @@ def plain_json_serialize(
             section_parent = child(section_parent, part)
         for entry in section.entries:
             if isinstance(entry, Entry):
+                if entry.properties:
+                    raise ValueError(f"Properties are not supported: {entry.id}")
                 check(entry.comment, entry.meta)
                 if not entry.id:
                     raise ValueError(f"Unsupported empty identifier in {section.id}")
diff --git a/python/moz/l10n/formats/properties/serialize.py b/python/moz/l10n/formats/properties/serialize.py
index e778603..595212b 100644
--- a/python/moz/l10n/formats/properties/serialize.py
+++ b/python/moz/l10n/formats/properties/serialize.py
@@ -111,6 +111,8 @@ def properties_serialize(
         id_prefix = ".".join(section.id) + "." if section.id else ""
         for entry in section.entries:
             if isinstance(entry, Entry):
+                if entry.properties:
+                    raise ValueError(f"Properties are not supported: {entry.id}")
                 yield from comment(entry.comment, entry.meta, False)
                 key = id_prefix + ".".join(entry.id)
                 key = escape_chars(key, ensure_ascii)
diff --git a/python/moz/l10n/formats/webext/serialize.py b/python/moz/l10n/formats/webext/serialize.py
index 4307556..69f636d 100644
--- a/python/moz/l10n/formats/webext/serialize.py
+++ b/python/moz/l10n/formats/webext/serialize.py
@@ -61,6 +61,8 @@ def webext_serialize(
         check(section.comment, section.meta)
         for entry in section.entries:
             if isinstance(entry, Entry):
+                if entry.properties:
+                    raise ValueError(f"Properties are not supported: {entry.id}")
                 check(None, entry.meta)
                 if len(entry.id) != 1:
                     raise ValueError(f"Unsupported entry identifier: {entry.id}")
diff --git a/python/moz/l10n/formats/xliff/serialize.py b/python/moz/l10n/formats/xliff/serialize.py
index 1a1776d..b0925e5 100644
--- a/python/moz/l10n/formats/xliff/serialize.py
+++ b/python/moz/l10n/formats/xliff/serialize.py
@@ -124,6 +124,8 @@ def xliff_serialize(
                     parent.append(etree.Comment(comment_str))
                 continue
 
+            if entry.properties:
+                raise ValueError(f"Properties are not supported: {entry.id}")
             if len(entry.id) != 1:
                 raise ValueError(f"Unsupported entry id: {entry.id}")
             id = entry.id[0]
-- 
2.43.0


From 5fa45e2d4e2f2ff1a0c6f3830f2f2265059bc8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:17 +0000
Subject: [PATCH 139/141] fix: Raise a ValueError when serializing a Fluent
 select with no variants

---
 python/moz/l10n/formats/fluent/serialize.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/moz/l10n/formats/fluent/serialize.py b/python/moz/l10n/formats/fluent/serialize.py
index d142cf9..dda18e7 100644
--- a/python/moz/l10n/formats/fluent/serialize.py
+++ b/python/moz/l10n/formats/fluent/serialize.py
@@ -302,6 +302,9 @@ def fluent_astify_message(
     if not isinstance(message, SelectMessage):
         raise ValueError(f"Unsupported message: {message}")
 
+    if not message.variants:
+        raise ValueError(f"Unsupported message with no variants: {message}")
+
     # It gets a bit complicated for SelectMessage. We'll be modifying this list,
     # building select expressions for each selector starting from the last one
     # until this list has only one entry `[[], pattern]`.
-- 
2.43.0


From 68db755821ebdcb08b0bef60eec7ebd0cfc43796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:05 +0000
Subject: [PATCH 140/141] fix: Refuse characters not allowed in XML in XLIFF
 resource comments

---
 python/moz/l10n/formats/xliff/serialize.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/xliff/serialize.py b/python/moz/l10n/formats/xliff/serialize.py
index b0925e5..b117945 100644
--- a/python/moz/l10n/formats/xliff/serialize.py
+++ b/python/moz/l10n/formats/xliff/serialize.py
@@ -65,7 +65,9 @@ def xliff_serialize(
 
     yield '<?xml version="1.0" encoding="utf-8"?>\n'
     if resource.comment and not trim_comments:
-        yield f"\n<!--{comment_body(resource.comment, 0)}-->\n\n"
+        body = comment_body(resource.comment, 0)
+        etree.Comment(body)  # raises an error for characters not allowed in XML
+        yield f"\n<!--{body}-->\n\n"
 
     # The nsmap needs to be set during creation
     # https://bugs.launchpad.net/lxml/+bug/555602
-- 
2.43.0


From 40218d6caf1dcef12d9f40b85ff88533defb9fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:38 +0000
Subject: [PATCH 141/141] fix: Refuse to serialize selector options in Android
 and XLIFF plurals

---
 python/moz/l10n/formats/android/serialize.py | 7 ++++++-
 python/moz/l10n/formats/xliff/serialize.py   | 8 +++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/formats/android/serialize.py b/python/moz/l10n/formats/android/serialize.py
index f5eeaf0..7f88568 100644
--- a/python/moz/l10n/formats/android/serialize.py
+++ b/python/moz/l10n/formats/android/serialize.py
@@ -316,7 +316,12 @@ def set_string_array_item(
 
 def set_plural_message(plurals: etree._Element, msg: SelectMessage) -> None:
     sel = msg.selector_expressions()[0] if len(msg.selectors) == 1 else None
-    if len(msg.declarations) != 1 or not sel or sel.function != "number":
+    if (
+        len(msg.declarations) != 1
+        or not sel
+        or sel.function != "number"
+        or sel.options
+    ):
         raise ValueError(f"Unsupported message: {msg}")
     item: etree._Element | None = None
     # Some Slavic languages use `many` as the fallback plural case,
diff --git a/python/moz/l10n/formats/xliff/serialize.py b/python/moz/l10n/formats/xliff/serialize.py
index b117945..66b4345 100644
--- a/python/moz/l10n/formats/xliff/serialize.py
+++ b/python/moz/l10n/formats/xliff/serialize.py
@@ -270,7 +270,11 @@ def add_xliff_stringsdict_plural(
     if len(msg.selectors) != 1:
         raise ValueError(f"Exactly one selector is required: {msg.selectors}")
     sel = msg.selector_expressions()[0]
-    if not isinstance(sel.arg, VariableRef) or sel.function != "number":
+    if (
+        not isinstance(sel.arg, VariableRef)
+        or sel.function != "number"
+        or sel.options
+    ):
         raise ValueError(f"Unsupported selector: {sel}")
 
     id = entry.id[0]
@@ -361,6 +365,8 @@ def add_xcstrings_selectmessage(
             f"Serialization is only supported for messages with one selector: {msg.selectors}"
         )
     (sel,) = msg.selector_expressions()
+    if sel.options:
+        raise ValueError(f"Unsupported selector: {sel}")
 
     # Also catches empty sel_exp
     if "substitution" in sel.attributes:
-- 
2.43.0

