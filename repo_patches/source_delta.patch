From b2b5d03f10229ebf3f45a3f10312d897f0dcdcf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:47 +0000
Subject: [PATCH 001/123] fix: whitespace around a field name no longer gives
 it a second, unknown handler

The section looked handlers up by the raw name, but stored their values
under the stripped one; 'Content-Type ' crashed process_headers and
'Age ' replaced the parsed value with an empty list.
---
 httplint/field/finder.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/httplint/field/finder.py b/httplint/field/finder.py
index a27255f..9150f54 100644
--- a/httplint/field/finder.py
+++ b/httplint/field/finder.py
@@ -36,6 +36,7 @@ class HttpFieldFinder:
         If a handler has already been instantiated for field_name, return it;
         otherwise, instantiate and return a new one.
         """
+        field_name = field_name.strip()
         norm_name = field_name.lower()
         if self.field_section and norm_name in self.field_section.handlers:
             return cast(HttpField[Any], self.field_section.handlers[norm_name])
-- 
2.43.0


From 6ceb7b4ec85d62f4c1bcabc0c62b8d411341ab86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:47 +0000
Subject: [PATCH 002/123] fix: keep offset-N subjects aligned after a field
 that fails its pre-check

---
 httplint/field/section.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/httplint/field/section.py b/httplint/field/section.py
index ce27bea..432c19c 100644
--- a/httplint/field/section.py
+++ b/httplint/field/section.py
@@ -39,9 +39,8 @@ class FieldSection:
             - calculate the total section size
             - call msg.add_note as appropriate
         """
-        offset = 0  # what number field we're on
-
-        for name, value in raw_fields:
+        # offset is what number field we're on
+        for offset, (name, value) in enumerate(raw_fields):
             add_note = partial(self.message.notes.add, f"offset-{offset}")
 
             # track size
@@ -76,7 +75,6 @@ class FieldSection:
                     field_name=handler.canonical_name,
                     field_size=f_num(field_size),
                 )
-            offset += 1
 
         if self.size > self.max_total_size:
             self.message.notes.add(
-- 
2.43.0


From d3fd58d33196cfcd26e718658cffad5efb3dd36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:47 +0000
Subject: [PATCH 003/123] fix: an invalid Age header no longer breaks age
 calculation

---
 httplint/cache.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/httplint/cache.py b/httplint/cache.py
index 1b3adfb..411f726 100644
--- a/httplint/cache.py
+++ b/httplint/cache.py
@@ -21,7 +21,7 @@ class ResponseCacheChecker:
         self.store_shared = True
         self.freshness_lifetime_shared: int = 0
 
-        self.age_value = response.headers.parsed.get("age", 0)
+        self.age_value = response.headers.parsed.get("age", None) or 0
         self.date_value = response.headers.parsed.get("date", None)
         self.expires_value = response.headers.parsed.get("expires", None)
         self.lm_value = response.headers.parsed.get("last-modified", None)
@@ -130,10 +130,8 @@ class ResponseCacheChecker:
         if self.request_time and self.response_time:
             response_delay = self.response_time - self.request_time
             corrected_age_value = self.age_value + response_delay
-        elif self.age_value is not None:
-            corrected_age_value = self.age_value
         else:
-            corrected_age_value = 0
+            corrected_age_value = self.age_value
 
         corrected_initial_age = max(apparent_age, corrected_age_value)
         self.age = corrected_initial_age
-- 
2.43.0


From 4f146a66bdfd51751efcb970b870bb976306c9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:29 +0000
Subject: [PATCH 004/123] fix: a URL that can't be split no longer stops
 linting

urljoin and urlsplit raise ValueError for values like 'http://['; Link,
NEL, Reporting-Endpoints and Speculation-Rules let it escape, Location
lost its value, and Set-Cookie dropped every cookie when the base URI
was like that.
---
 httplint/field/parsers/link.py                |  5 +++--
 httplint/field/parsers/location.py            |  9 +++++----
 httplint/field/parsers/nel.py                 |  7 +++----
 httplint/field/parsers/reporting_endpoints.py |  7 +++----
 httplint/field/parsers/set_cookie.py          |  6 +++---
 httplint/field/parsers/speculation_rules.py   |  7 +++----
 httplint/util.py                              | 12 ++++++++++--
 7 files changed, 30 insertions(+), 23 deletions(-)

diff --git a/httplint/field/parsers/link.py b/httplint/field/parsers/link.py
index 97d4653..e5bff14 100644
--- a/httplint/field/parsers/link.py
+++ b/httplint/field/parsers/link.py
@@ -1,6 +1,5 @@
 import re
 from typing import Tuple
-from urllib.parse import urljoin, urlsplit
 
 from httplint.field import BAD_SYNTAX
 from httplint.field.list_field import HttpListField
@@ -14,6 +13,7 @@ from httplint.types import (
     NoteClassListType,
     ParamDictType,
 )
+from httplint.util import resolve_url
 
 
 class link(HttpListField[AnyMessageLinterProtocol]):
@@ -58,7 +58,8 @@ statement of the form "[context IRI] has a [relation type] resource at [target I
             for token in rel.lower().split():
                 if token not in hints:
                     continue
-                scheme = urlsplit(urljoin(base_uri, link_value)).scheme.lower()
+                target = resolve_url(base_uri, link_value)
+                scheme = target.scheme.lower() if target else ""
                 if scheme and scheme not in ("http", "https"):
                     bad_targets.append((token, link_value, scheme))
                 else:
diff --git a/httplint/field/parsers/location.py b/httplint/field/parsers/location.py
index 35e221c..c6a8db1 100644
--- a/httplint/field/parsers/location.py
+++ b/httplint/field/parsers/location.py
@@ -37,10 +37,11 @@ In `201` (Created) responses, it identifies a newly created resource."""
             ]:
                 add_note(LOCATION_UNDEFINED)
         if not re.match(rf"^\s*{rfc3986.URI}\s*$", field_value, re.VERBOSE):
-            add_note(
-                LOCATION_NOT_ABSOLUTE,
-                full_uri=urljoin(self.message.base_uri, field_value),
-            )
+            try:
+                full_uri = urljoin(self.message.base_uri, field_value)
+            except ValueError:  # can't be resolved
+                full_uri = field_value
+            add_note(LOCATION_NOT_ABSOLUTE, full_uri=full_uri)
         return field_value
 
 
diff --git a/httplint/field/parsers/nel.py b/httplint/field/parsers/nel.py
index f62c1a9..ecf9411 100644
--- a/httplint/field/parsers/nel.py
+++ b/httplint/field/parsers/nel.py
@@ -1,5 +1,4 @@
 from typing import Any, List, Set
-from urllib.parse import urljoin, urlsplit
 
 from httplint.field.json_field import BAD_JSON, JsonField
 from httplint.field.parsers.reporting_endpoints import ENDPOINT_NOT_SECURE
@@ -10,6 +9,7 @@ from httplint.types import (
     NoteClassListType,
     ResponseLinterProtocol,
 )
+from httplint.util import resolve_url
 
 
 def _valid_reporting_endpoints(field_value: Any, base_uri: str) -> Set[str]:
@@ -19,9 +19,8 @@ def _valid_reporting_endpoints(field_value: Any, base_uri: str) -> Set[str]:
         url = item[0]
         if not isinstance(url, str):
             continue
-        target = urljoin(base_uri, url)
-        scheme = urlsplit(target).scheme.lower()
-        if scheme and scheme not in ("https", "wss"):
+        target = resolve_url(base_uri, url)
+        if target is None or (target.scheme and target.scheme.lower() not in ("https", "wss")):
             continue
         valid.add(name)
     return valid
diff --git a/httplint/field/parsers/reporting_endpoints.py b/httplint/field/parsers/reporting_endpoints.py
index 26d4494..c88c136 100644
--- a/httplint/field/parsers/reporting_endpoints.py
+++ b/httplint/field/parsers/reporting_endpoints.py
@@ -1,5 +1,4 @@
 from typing import Any
-from urllib.parse import urljoin, urlsplit
 
 from httplint.field.structured_field import StructuredField
 from httplint.field.tests import FieldTest
@@ -10,6 +9,7 @@ from httplint.types import (
     ResponseLinterProtocol,
     SFDictionaryType,
 )
+from httplint.util import resolve_url
 
 
 class reporting_endpoints(StructuredField[ResponseLinterProtocol]):
@@ -35,9 +35,8 @@ API."""
                 )
                 continue
 
-            target = urljoin(self.message.base_uri, url)
-            parsed = urlsplit(target)
-            if parsed.scheme and parsed.scheme.lower() not in ["https", "wss"]:
+            parsed = resolve_url(self.message.base_uri, url)
+            if parsed and parsed.scheme and parsed.scheme.lower() not in ["https", "wss"]:
                 add_note(ENDPOINT_NOT_SECURE, name=name, url=url)
 
 
diff --git a/httplint/field/parsers/set_cookie.py b/httplint/field/parsers/set_cookie.py
index 675b6cf..1099cf9 100644
--- a/httplint/field/parsers/set_cookie.py
+++ b/httplint/field/parsers/set_cookie.py
@@ -1,7 +1,6 @@
 from calendar import timegm
 from re import match, split
 from typing import Any, List, Optional, Tuple, Union
-from urllib.parse import urlsplit
 
 from httplint.field import RFC6265
 from httplint.field.broken_field import BrokenField
@@ -13,7 +12,7 @@ from httplint.types import (
     NoteClassListType,
     ResponseLinterProtocol,
 )
-from httplint.util import relative_time
+from httplint.util import relative_time, resolve_url
 
 CookieType = Tuple[str, str, List[Tuple[str, Union[str, int]]]]
 
@@ -42,7 +41,8 @@ requests to the server."""
         ) -> Any:
             self._deferred_notes.append((add_note, note, category, kwargs))
 
-        path = urlsplit(self.message.base_uri).path
+        base_uri = resolve_url("", self.message.base_uri)
+        path = base_uri.path if base_uri else ""
         return loose_parse(field_value, path, self.message.start_time, deferred_add_note)
 
     def evaluate(self, add_note: AddNoteMethodType) -> None:
diff --git a/httplint/field/parsers/speculation_rules.py b/httplint/field/parsers/speculation_rules.py
index 63e990c..e158057 100644
--- a/httplint/field/parsers/speculation_rules.py
+++ b/httplint/field/parsers/speculation_rules.py
@@ -1,5 +1,4 @@
 from typing import Any
-from urllib.parse import urljoin, urlsplit
 
 from httplint.field.structured_field import (
     STRUCTURED_FIELD_PARSE_ERROR,
@@ -13,6 +12,7 @@ from httplint.types import (
     ResponseLinterProtocol,
     SFListType,
 )
+from httplint.util import resolve_url
 
 
 class speculation_rules(StructuredField[ResponseLinterProtocol]):
@@ -35,9 +35,8 @@ point to speculation rules files."""
                 )
                 continue
 
-            target = urljoin(self.message.base_uri, url)
-            parsed = urlsplit(target)
-            if parsed.scheme and parsed.scheme.lower() not in ["https", "wss"]:
+            parsed = resolve_url(self.message.base_uri, url)
+            if parsed and parsed.scheme and parsed.scheme.lower() not in ["https", "wss"]:
                 add_note(SPECULATION_RULE_NOT_SECURE, url=url)
 
 
diff --git a/httplint/util.py b/httplint/util.py
index 4365a44..d09bc3f 100644
--- a/httplint/util.py
+++ b/httplint/util.py
@@ -3,9 +3,9 @@ import time
 import unittest
 from binascii import b2a_hex
 from datetime import timedelta
-from typing import Any, List
+from typing import Any, List, Optional
 from urllib.parse import quote as urlquote
-from urllib.parse import urlsplit, urlunsplit
+from urllib.parse import SplitResult, urljoin, urlsplit, urlunsplit
 
 from httplint.i18n import format_timedelta, translate
 from httplint.note import MarkdownSafe
@@ -27,6 +27,14 @@ def iri_to_uri(iri: str) -> str:
     return urlunsplit((scheme, authority, path, quer, frag))
 
 
+def resolve_url(base_uri: str, url: str) -> Optional[SplitResult]:
+    "Resolve a URL reference against a base and split it. Returns None if that isn't possible."
+    try:
+        return urlsplit(urljoin(base_uri, url))
+    except ValueError:
+        return None
+
+
 def f_num(i: int, by1024: bool = False) -> str:
     "Format a number according to the locale."
     if by1024:
-- 
2.43.0


From 12bb8c585c69801e23d166d9e669f47caffb9335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:43 +0000
Subject: [PATCH 005/123] fix: JSON fields with very deep nesting or huge
 numbers no longer stop linting

json.loads raises RecursionError and plain ValueError for those. Also
import resolve_url where Set-Cookie uses it.
---
 httplint/field/json_field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/field/json_field.py b/httplint/field/json_field.py
index 6408a8a..c72beeb 100644
--- a/httplint/field/json_field.py
+++ b/httplint/field/json_field.py
@@ -25,7 +25,7 @@ class JsonField(HttpField[TMessage], Generic[TMessage]):
         combined_value = f"[{', '.join(self.value)}]"
         try:
             self.value = json.loads(combined_value)
-        except json.JSONDecodeError as why:
+        except (ValueError, RecursionError) as why:
             add_note(BAD_JSON, error=str(why), category=self.category)
             self.value = None
 
-- 
2.43.0


From 7f0620f993201024f3ed4673258370f6af0c6998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:14 +0000
Subject: [PATCH 006/123] fix: charset names that codecs treats specially no
 longer stop linting

codecs.lookup raises ValueError for a name with a NUL in it, and some
codecs (e.g., 'undefined', 'idna') raise plain UnicodeError.
---
 httplint/charset.py | 6 +++---
 httplint/message.py | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/httplint/charset.py b/httplint/charset.py
index 2f3916d..c0af0bc 100644
--- a/httplint/charset.py
+++ b/httplint/charset.py
@@ -28,7 +28,7 @@ def _requires_utf8(media_type: str) -> bool:
 def _canonical(name: str) -> Optional[str]:
     try:
         return codecs.lookup(name).name
-    except (LookupError, TypeError):
+    except (LookupError, TypeError, ValueError):
         return None
 
 
@@ -84,7 +84,7 @@ def verify_charset(linter: LinterProtocol) -> None:  # pylint: disable=too-many-
     try:
         sample.decode(effective_charset_raw, errors="strict")
         decodes = True
-    except (UnicodeDecodeError, LookupError):
+    except (UnicodeError, LookupError):
         decodes = False
 
     detection = chardet.detect(sample)
@@ -134,7 +134,7 @@ def _encodings_compatible(declared: str, detected: str, sample: bytes) -> bool:
     try:
         declared_text = sample.decode(declared, errors="strict")
         detected_text = sample.decode(detected, errors="strict")
-    except (UnicodeDecodeError, LookupError):
+    except (UnicodeError, LookupError):
         return False
     return declared_text == detected_text
 
diff --git a/httplint/message.py b/httplint/message.py
index 140a2d1..743ae8d 100644
--- a/httplint/message.py
+++ b/httplint/message.py
@@ -108,7 +108,7 @@ class HttpMessageLinter:
             try:
                 codecs.lookup(enc)
                 self.character_encoding = enc
-            except (LookupError, TypeError):
+            except (LookupError, TypeError, ValueError):
                 pass
 
     def feed_content(self, chunk: bytes) -> None:
-- 
2.43.0


From d4f38446d618cbc1727dd76e1db3f4ed6f7a19fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:14 +0000
Subject: [PATCH 007/123] fix: don't report undecodable content when the sample
 splits a character

---
 httplint/charset.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/httplint/charset.py b/httplint/charset.py
index c0af0bc..933f658 100644
--- a/httplint/charset.py
+++ b/httplint/charset.py
@@ -84,6 +84,12 @@ def verify_charset(linter: LinterProtocol) -> None:  # pylint: disable=too-many-
     try:
         sample.decode(effective_charset_raw, errors="strict")
         decodes = True
+    except UnicodeDecodeError as why:
+        # The sample might stop part-way through a character; that isn't an error.
+        truncated = linter.decoded.length > len(sample) or not linter.complete
+        decodes = truncated and why.end == len(sample) and why.start > len(sample) - 4
+        if decodes:
+            sample = sample[: why.start]
     except (UnicodeError, LookupError):
         decodes = False
 
-- 
2.43.0


From c1f5d6d2554c32c49d61409a31e7b1ea7d6d33a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:45 +0000
Subject: [PATCH 008/123] fix: CONTENT_NOT_ALLOWED can be rendered

Its summary needs a variable that wasn't supplied, and its text was
under the wrong attribute.
---
 httplint/message.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/httplint/message.py b/httplint/message.py
index 743ae8d..24b40fc 100644
--- a/httplint/message.py
+++ b/httplint/message.py
@@ -145,7 +145,11 @@ class HttpMessageLinter:
                     )
         else:
             if self.content_length and not self.no_content:
-                self.notes.add("message", CONTENT_NOT_ALLOWED)
+                self.notes.add(
+                    "message",
+                    CONTENT_NOT_ALLOWED,
+                    message=translate(self.message_type).capitalize(),
+                )
         self.post_checks()
 
         for section in [self.headers, self.trailers]:
@@ -338,7 +342,7 @@ class CONTENT_NOT_ALLOWED(Note):
     category = categories.GENERAL
     level = levels.BAD
     _summary = "%(message)s can not have content."
-    _note = """\
+    _text = """\
 HTTP does not allow this message to have content; including it can cause security and
 interoperability issues.
 """
-- 
2.43.0


From 5857ab167b9bce72393da3da7ab54af24fc29d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:22 +0000
Subject: [PATCH 009/123] fix: very large ages, lifetimes and durations no
 longer break notes

timedelta can't represent them, and Python can't mix them with floats;
as RFC9111 Section 1.2.2 suggests, use the greatest value we can.
---
 httplint/cache.py | 12 +++++++-----
 httplint/util.py  | 11 ++++++++++-
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/httplint/cache.py b/httplint/cache.py
index 411f726..d0de641 100644
--- a/httplint/cache.py
+++ b/httplint/cache.py
@@ -3,7 +3,7 @@
 
 from httplint.note import Note, categories, levels
 from httplint.types import ResponseLinterProtocol
-from httplint.util import relative_time
+from httplint.util import clamp_seconds, relative_time
 
 ### configuration
 CACHEABLE_METHODS = ["GET", "HEAD"]
@@ -21,7 +21,9 @@ class ResponseCacheChecker:
         self.store_shared = True
         self.freshness_lifetime_shared: int = 0
 
-        self.age_value = response.headers.parsed.get("age", None) or 0
+        # RFC9111 Section 1.2.2: delta-seconds that are too large use the greatest integer
+        # that can be represented
+        self.age_value = clamp_seconds(response.headers.parsed.get("age", None) or 0)
         self.date_value = response.headers.parsed.get("date", None)
         self.expires_value = response.headers.parsed.get("expires", None)
         self.lm_value = response.headers.parsed.get("last-modified", None)
@@ -157,12 +159,12 @@ class ResponseCacheChecker:
             self.freshness_lifetime_private = expires_lifetime
             self.freshness_lifetime_shared = expires_lifetime
         if "max-age" in self.cc_dict:
-            self.freshness_lifetime_private = self.cc_dict["max-age"]
-            self.freshness_lifetime_shared = self.cc_dict["max-age"]
+            self.freshness_lifetime_private = clamp_seconds(self.cc_dict["max-age"])
+            self.freshness_lifetime_shared = clamp_seconds(self.cc_dict["max-age"])
             freshness_hdrs.append("field-cache-control")
             self.has_explicit_freshness = True
         if "s-maxage" in self.cc_dict:
-            self.freshness_lifetime_shared = self.cc_dict["s-maxage"]
+            self.freshness_lifetime_shared = clamp_seconds(self.cc_dict["s-maxage"])
             freshness_hdrs.append("field-cache-control")
             self.has_explicit_freshness = True
 
diff --git a/httplint/util.py b/httplint/util.py
index d09bc3f..d7a7fe0 100644
--- a/httplint/util.py
+++ b/httplint/util.py
@@ -78,6 +78,15 @@ def markdown_list(inlist: List[str], markup: str = "") -> MarkdownSafe:
     return MarkdownSafe("\n".join(f"- {markup}{i}{markup}" for i in safe))
 
 
+# the greatest number of seconds that can conveniently be represented as a timedelta
+MAX_SECONDS = timedelta.max.days * 24 * 60 * 60
+
+
+def clamp_seconds(seconds: float) -> float:
+    "Limit a number of seconds to what can be represented."
+    return max(-MAX_SECONDS, min(seconds, MAX_SECONDS))
+
+
 class RelativeTime:
     def __init__(self, utime: float, now: float, show_sign: int = 1) -> None:
         self.utime = utime
@@ -85,7 +94,7 @@ class RelativeTime:
         self.show_sign = show_sign
 
     def __str__(self) -> str:
-        delta_secs = self.utime - self.now
+        delta_secs = clamp_seconds(clamp_seconds(self.utime) - clamp_seconds(self.now))
         delta = timedelta(seconds=delta_secs)
         if self.show_sign == 1:
             output = format_timedelta(delta, add_direction=True, threshold=1.2)
-- 
2.43.0


From cc9d85088da0de8f86c265f06e98b821ec9dffcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:49 +0000
Subject: [PATCH 010/123] fix: only accept ASCII digits where a field's value
 is an integer

int() also allows '+5', '-5', '1_0' and inner whitespace, and isdigit()
allows superscript digits; Age, Content-Length, Cache-Control,
Access-Control-Max-Age and Strict-Transport-Security took those as valid,
while Range, Content-Range and Set-Cookie silently dropped the value.
---
 .../field/parsers/access_control_max_age.py   |  3 ++-
 httplint/field/parsers/age.py                 |  3 ++-
 httplint/field/parsers/cache_control.py       |  4 +++-
 httplint/field/parsers/content_length.py      |  3 ++-
 httplint/field/parsers/content_range.py       |  6 +++---
 httplint/field/parsers/range.py               |  4 ++--
 httplint/field/parsers/set_cookie.py          |  2 +-
 .../parsers/strict_transport_security.py      |  3 ++-
 httplint/field/utils.py                       | 19 +++++++++++++++++++
 9 files changed, 36 insertions(+), 11 deletions(-)

diff --git a/httplint/field/parsers/access_control_max_age.py b/httplint/field/parsers/access_control_max_age.py
index bf87e72..d73eab7 100644
--- a/httplint/field/parsers/access_control_max_age.py
+++ b/httplint/field/parsers/access_control_max_age.py
@@ -1,6 +1,7 @@
 from httplint.field.cors import CORS_PREFLIGHT_ONLY
 from httplint.field.singleton_field import SingletonField
 from httplint.field.tests import FieldTest
+from httplint.field.utils import parse_integer
 from httplint.note import Note, categories, levels
 from httplint.syntax import rfc9110
 from httplint.types import (
@@ -24,7 +25,7 @@ request (as scoped by the `Access-Control-Allow-Methods` and
 
     def parse(self, field_value: str, add_note: AddNoteMethodType) -> int:
         try:
-            val = int(field_value)
+            val = parse_integer(field_value)
         except ValueError:
             add_note(CORS_MAX_AGE_INVALID, ref_uri=self.reference)
             raise
diff --git a/httplint/field/parsers/age.py b/httplint/field/parsers/age.py
index dfbe618..63d194c 100644
--- a/httplint/field/parsers/age.py
+++ b/httplint/field/parsers/age.py
@@ -1,5 +1,6 @@
 from httplint.field.singleton_field import SINGLE_HEADER_REPEAT, SingletonField
 from httplint.field.tests import FieldTest
+from httplint.field.utils import parse_integer
 from httplint.note import Note, categories, levels
 from httplint.syntax import rfc9111
 from httplint.types import (
@@ -22,7 +23,7 @@ The `Age` response header conveys the sender's estimate of the amount of time si
 
     def parse(self, field_value: str, add_note: AddNoteMethodType) -> int:
         try:
-            age_value = int(field_value)
+            age_value = parse_integer(field_value)
         except ValueError:
             add_note(AGE_NOT_INT)
             raise
diff --git a/httplint/field/parsers/cache_control.py b/httplint/field/parsers/cache_control.py
index 65ba95f..c9ef13e 100644
--- a/httplint/field/parsers/cache_control.py
+++ b/httplint/field/parsers/cache_control.py
@@ -2,7 +2,7 @@ from typing import Any, Callable, Dict, List, Tuple, Union
 
 from httplint.field.list_field import HttpListField
 from httplint.field.tests import FieldTest
-from httplint.field.utils import unquote_string
+from httplint.field.utils import parse_non_negative, unquote_string
 from httplint.note import Note, categories, levels
 from httplint.syntax import rfc9111
 from httplint.types import (
@@ -115,6 +115,8 @@ ignoring it there."""
                 if directive_val is not None:
                     add_note(CC_SHOULD_NOT_HAVE_VALUE, directive=directive_name)
             else:
+                if value_func is int:
+                    value_func = parse_non_negative
                 try:
                     val = value_func(directive_val)
                     if isinstance(val, int) and val > 2147483648:
diff --git a/httplint/field/parsers/content_length.py b/httplint/field/parsers/content_length.py
index 2f95d29..ff79636 100644
--- a/httplint/field/parsers/content_length.py
+++ b/httplint/field/parsers/content_length.py
@@ -1,5 +1,6 @@
 from httplint.field.singleton_field import SINGLE_HEADER_REPEAT, SingletonField
 from httplint.field.tests import FieldTest
+from httplint.field.utils import parse_non_negative
 from httplint.note import Note, categories, levels
 from httplint.syntax import rfc9110
 from httplint.types import (
@@ -26,7 +27,7 @@ store the response (since they can't be sure if they have the whole response).""
 
     def parse(self, field_value: str, add_note: AddNoteMethodType) -> int:
         try:
-            value = int(field_value)
+            value = parse_non_negative(field_value)
         except ValueError:
             add_note(CL_BAD_SYNTAX)
             raise
diff --git a/httplint/field/parsers/content_range.py b/httplint/field/parsers/content_range.py
index e8f7044..840b05e 100644
--- a/httplint/field/parsers/content_range.py
+++ b/httplint/field/parsers/content_range.py
@@ -92,7 +92,7 @@ in `416` (Requested Range Not Satisfiable) responses."""
         if len_str == "*":
             add_note(CONTENT_RANGE_UNKNOWN_LENGTH)
             return None
-        if not len_str.isdigit():
+        if not len_str.isdecimal():
             add_note(RANGE_INVALID_INTEGER, value=len_str)
             return None
         return int(len_str)
@@ -108,10 +108,10 @@ in `416` (Requested Range Not Satisfiable) responses."""
             return None, None
 
         first_str, last_str = rng.split("-", 1)
-        if not first_str.isdigit():
+        if not first_str.isdecimal():
             add_note(RANGE_INVALID_INTEGER, value=first_str)
             return None, None
-        if not last_str.isdigit():
+        if not last_str.isdecimal():
             add_note(RANGE_INVALID_INTEGER, value=last_str)
             return None, None
 
diff --git a/httplint/field/parsers/range.py b/httplint/field/parsers/range.py
index ab3f8cb..b692ff8 100644
--- a/httplint/field/parsers/range.py
+++ b/httplint/field/parsers/range.py
@@ -52,7 +52,7 @@ parts of the representation that are specified."""
             last_byte_pos: Optional[int] = None
 
             if first_str:
-                if not first_str.isdigit():
+                if not first_str.isdecimal():
                     add_note(
                         RANGE_BAD_SYNTAX,
                         ref_uri=self.reference,
@@ -62,7 +62,7 @@ parts of the representation that are specified."""
                 first_byte_pos = int(first_str)
 
             if last_str:
-                if not last_str.isdigit():
+                if not last_str.isdecimal():
                     add_note(
                         RANGE_BAD_SYNTAX,
                         ref_uri=self.reference,
diff --git a/httplint/field/parsers/set_cookie.py b/httplint/field/parsers/set_cookie.py
index 1099cf9..4c0aade 100644
--- a/httplint/field/parsers/set_cookie.py
+++ b/httplint/field/parsers/set_cookie.py
@@ -199,7 +199,7 @@ def _process_cookie_attribute(  # pylint: disable=too-many-branches,too-many-arg
             return lifetime_note_added
         if attribute_value[0] == "0" and len(attribute_value) > 1:
             add_note(SET_COOKIE_LEADING_ZERO_MAX_AGE, cookie_name=cookie_name)
-        if not attribute_value.isdigit():
+        if not attribute_value.isdecimal():
             add_note(SET_COOKIE_NON_DIGIT_MAX_AGE, cookie_name=cookie_name)
             return lifetime_note_added
         delta_seconds = int(attribute_value)
diff --git a/httplint/field/parsers/strict_transport_security.py b/httplint/field/parsers/strict_transport_security.py
index 30ce922..a78334c 100644
--- a/httplint/field/parsers/strict_transport_security.py
+++ b/httplint/field/parsers/strict_transport_security.py
@@ -2,6 +2,7 @@ from typing import Any
 
 from httplint.field.singleton_field import SINGLE_HEADER_REPEAT, SingletonField
 from httplint.field.tests import FieldTest
+from httplint.field.utils import parse_non_negative
 from httplint.note import Note, categories, levels
 from httplint.syntax import rfc9110
 from httplint.types import (
@@ -55,7 +56,7 @@ browsers that it should only be communicated with using HTTPS, instead of using
             if name == "max-age":
                 try:
                     if value is not None:
-                        parsed["max-age"] = int(value)
+                        parsed["max-age"] = parse_non_negative(value)
                     else:
                         raise ValueError
                 except (ValueError, TypeError):
diff --git a/httplint/field/utils.py b/httplint/field/utils.py
index 2098d58..5fa2a9c 100644
--- a/httplint/field/utils.py
+++ b/httplint/field/utils.py
@@ -126,6 +126,25 @@ def parse_http_date(
     return calendar.timegm(date_tuple)
 
 
+def parse_integer(value: str) -> int:
+    """
+    Parse ASCII digits, optionally preceded by a minus sign. Raises ValueError if it's bad.
+
+    Unlike int(), doesn't allow a plus sign, underscores, whitespace or other digits.
+    """
+    if not re.match(r"^-?[0-9]+\Z", value):
+        raise ValueError("not an integer")
+    return int(value)
+
+
+def parse_non_negative(value: str) -> int:
+    "Parse a non-negative integer. Raises ValueError if it's bad."
+    seconds = parse_integer(value)
+    if seconds < 0:
+        raise ValueError("negative")
+    return seconds
+
+
 def unquote_string(instr: str) -> str:
     """
     Unquote a unicode string; does NOT unquote control characters.
-- 
2.43.0


From 80d10bdb626e3301aa1284ddc8e1c8c9c5ebd5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:05 +0000
Subject: [PATCH 011/123] fix: HSTS max-age thresholds are one year, as their
 notes say

---
 httplint/field/parsers/strict_transport_security.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/httplint/field/parsers/strict_transport_security.py b/httplint/field/parsers/strict_transport_security.py
index a78334c..2e0e374 100644
--- a/httplint/field/parsers/strict_transport_security.py
+++ b/httplint/field/parsers/strict_transport_security.py
@@ -94,7 +94,7 @@ browsers that it should only be communicated with using HTTPS, instead of using
             if (
                 parsed["includesubdomains"]
                 and parsed["max-age"] is not None
-                and parsed["max-age"] >= 1536000
+                and parsed["max-age"] >= 31536000
             ):
                 notes_to_add.append(HSTS_PRELOAD)
             else:
@@ -109,7 +109,7 @@ browsers that it should only be communicated with using HTTPS, instead of using
             is_valid = False
         elif parsed["max-age"] == 0:
             notes_to_add.append(HSTS_MAX_AGE_ZERO)
-        elif parsed["max-age"] < 1536000:
+        elif parsed["max-age"] < 31536000:
             notes_to_add.append(HSTS_SHORT_MAX_AGE)
 
         if parsed["includesubdomains"]:
-- 
2.43.0


From 8b2281603627b9be0e318e66ea16a431342955f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:05 +0000
Subject: [PATCH 012/123] fix: allow the HSTS max-age to be quoted, as in
 RFC6797 Section 6.2

---
 httplint/field/parsers/strict_transport_security.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/httplint/field/parsers/strict_transport_security.py b/httplint/field/parsers/strict_transport_security.py
index 2e0e374..1f45b21 100644
--- a/httplint/field/parsers/strict_transport_security.py
+++ b/httplint/field/parsers/strict_transport_security.py
@@ -2,7 +2,7 @@ from typing import Any
 
 from httplint.field.singleton_field import SINGLE_HEADER_REPEAT, SingletonField
 from httplint.field.tests import FieldTest
-from httplint.field.utils import parse_non_negative
+from httplint.field.utils import parse_non_negative, unquote_string
 from httplint.note import Note, categories, levels
 from httplint.syntax import rfc9110
 from httplint.types import (
@@ -56,7 +56,7 @@ browsers that it should only be communicated with using HTTPS, instead of using
             if name == "max-age":
                 try:
                     if value is not None:
-                        parsed["max-age"] = parse_non_negative(value)
+                        parsed["max-age"] = parse_non_negative(unquote_string(value))
                     else:
                         raise ValueError
                 except (ValueError, TypeError):
-- 
2.43.0


From 981d1f936e8854293ff2d248d7bfc1732ac427e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:45 +0000
Subject: [PATCH 013/123] fix: URI grammar: multi-character userinfo, empty
 paths and shortened IPv6 addresses

---
 httplint/syntax/rfc3986.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/httplint/syntax/rfc3986.py b/httplint/syntax/rfc3986.py
index 5509735..fdb60b0 100755
--- a/httplint/syntax/rfc3986.py
+++ b/httplint/syntax/rfc3986.py
@@ -77,13 +77,13 @@ ls32 = rf"(?: (?: {h16} : {h16} ) | {IPv4address} )"
 #                 / [ *6( h16 ":" ) h16 ] "::"
 IPv6address = rf"""(?:                              (?: {h16} : ){{6}} {ls32} |
                                                  :: (?: {h16} : ){{5}} {ls32} |
-                                           {h16} :: (?: {h16} : ){{4}} {ls32} |
-                        (?: {h16} : )      {h16} :: (?: {h16} : ){{3}} {ls32} |
-                        (?: {h16} : ){{2}} {h16} :: (?: {h16} : ){{2}} {ls32} |
-                        (?: {h16} : ){{3}} {h16} ::     {h16} :        {ls32} |
-                        (?: {h16} : ){{4}} {h16} ::                    {ls32} |
-                        (?: {h16} : ){{5}} {h16} ::                    {h16}  |
-                        (?: {h16} : ){{6}} {h16} ::
+                   (?:                       {h16} )? :: (?: {h16} : ){{4}} {ls32} |
+                   (?: (?: {h16} : ){{0,1}}  {h16} )? :: (?: {h16} : ){{3}} {ls32} |
+                   (?: (?: {h16} : ){{0,2}}  {h16} )? :: (?: {h16} : ){{2}} {ls32} |
+                   (?: (?: {h16} : ){{0,3}}  {h16} )? ::     {h16} :        {ls32} |
+                   (?: (?: {h16} : ){{0,4}}  {h16} )? ::                    {ls32} |
+                   (?: (?: {h16} : ){{0,5}}  {h16} )? ::                    {h16}  |
+                   (?: (?: {h16} : ){{0,6}}  {h16} )? ::
                     )
 """
 
@@ -97,7 +97,7 @@ IP_literal = rf"\[ (?: {IPv6address} | {IPvFuture} ) \]"
 reg_name = rf"(?: {unreserved} | {pct_encoded} | {sub_delims} )*"
 
 #   userinfo      = *( unreserved / pct-encoded / sub-delims / ":" )
-userinfo = rf"(?: {unreserved} | {pct_encoded} | {sub_delims} | : )"
+userinfo = rf"(?: {unreserved} | {pct_encoded} | {sub_delims} | : )*"
 
 #   host          = IP-literal / IPv4address / reg-name
 host = rf"(?: {IP_literal} | {IPv4address} | {reg_name} )"
@@ -134,7 +134,7 @@ path_noscheme = rf"{segment_nz_nc} (?: / {segment} )*"
 path_rootless = rf"{segment_nz} (?: / {segment} )*"
 
 #   path-empty    = 0<pchar>
-path_empty = rf"{pchar}{0}"
+path_empty = rf"{pchar}{{0}}"
 
 #   path          = path-abempty    ; begins with "/" or is empty
 #                 / path-absolute   ; begins with "/" but not "//"
-- 
2.43.0


From 266e6781422cdc81593efeea5b6c62da653ab3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:45 +0000
Subject: [PATCH 014/123] fix: a partial-URI's query starts with a question
 mark

---
 httplint/syntax/rfc9110.py | 2 +-
 httplint/syntax/rfc9112.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/httplint/syntax/rfc9110.py b/httplint/syntax/rfc9110.py
index 8cf0720..3cfa258 100644
--- a/httplint/syntax/rfc9110.py
+++ b/httplint/syntax/rfc9110.py
@@ -262,7 +262,7 @@ Content_Length = rf"{DIGIT}+"
 
 #   partial-URI = relative-part [ "?" query ]
 
-partial_URI = rf"(?: {relative_part} (?: {query} )? )"
+partial_URI = rf"(?: {relative_part} (?: \? {query} )? )"
 
 #   Content-Location = absolute-URI / partial-URI
 
diff --git a/httplint/syntax/rfc9112.py b/httplint/syntax/rfc9112.py
index bf5940c..df873e6 100644
--- a/httplint/syntax/rfc9112.py
+++ b/httplint/syntax/rfc9112.py
@@ -124,7 +124,7 @@ authority_form = authority
 
 #   origin-form = absolute-path [ "?" query ]
 
-origin_form = rf"(?: {absolute_path} (?: {query} )? )"
+origin_form = rf"(?: {absolute_path} (?: \? {query} )? )"
 
 #   request-target = origin-form / absolute-form / authority-form / asterisk-form
 
-- 
2.43.0


From a508452b530c3f8a7d82e572c9cf2f14d19a174a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:45 +0000
Subject: [PATCH 015/123] fix: language tags can have variants, extensions and
 private use subtags

---
 httplint/syntax/rfc5646.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/syntax/rfc5646.py b/httplint/syntax/rfc5646.py
index a2a579f..3c3ef40 100644
--- a/httplint/syntax/rfc5646.py
+++ b/httplint/syntax/rfc5646.py
@@ -13,7 +13,7 @@ from .rfc5234 import ALPHA, DIGIT
 
 # alphanum      = (ALPHA / DIGIT)     ; letters and numbers
 
-alphanum = r"(?: {ALPHA} | {DIGIT} )"
+alphanum = rf"(?: {ALPHA} | {DIGIT} )"
 
 # irregular     = "en-GB-oed"         ; irregular tags do not match
 #               / "i-ami"             ; the 'langtag' production and
-- 
2.43.0


From 617d4e63508f1893b0705323cca91f587ae6f382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:09 +0000
Subject: [PATCH 016/123] fix: mailbox syntax allows comments and spaces, and
 doesn't backtrack exponentially

---
 httplint/syntax/rfc5322.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/httplint/syntax/rfc5322.py b/httplint/syntax/rfc5322.py
index 24c6111..d1441c2 100644
--- a/httplint/syntax/rfc5322.py
+++ b/httplint/syntax/rfc5322.py
@@ -23,11 +23,12 @@ qcontent = rf"(?: {qtext} | {quoted_pair} )"
 #                     %d93-126 /         ;  "(", ")", or "\"
 #                     obs-ctext
 
-ctext = r"[\x21-\x27\x2a-\x5b\x5d\x7e]"
+ctext = r"[\x21-\x27\x2a-\x5b\x5d-\x7e]"
 
 # ccontent        =   ctext / quoted-pair / comment
 
-ccontent = rf"(?: {ctext} | {quoted_pair} |)"
+# (comments nest; this allows two further levels)
+ccontent = rf"(?: {ctext} | {quoted_pair} )"
 
 # FWS             =   ([*WSP CRLF] 1*WSP) /  obs-FWS
 
@@ -36,16 +37,18 @@ FWS = rf"(?: (?: {WSP}* {CRLF} )? {WSP}{{1,}} )"
 # comment         =   "(" *([FWS] ccontent) [FWS] ")"
 
 comment = rf"(?: \( (?: {FWS}? {ccontent} )* {FWS}? \) )"
+for _ in range(2):
+    comment = rf"(?: \( (?: {FWS}? (?: {ccontent} | {comment} ) )* {FWS}? \) )"
 
 # CFWS            =   (1*([FWS] comment) [FWS]) / FWS
 
-CFWS = rf"(?: (?: {FWS}? {comment} {FWS}? ){{1,}} | {FWS} )"
+CFWS = rf"(?: (?: {FWS}? {comment} ){{1,}} {FWS}? | {FWS} )"
 
 # quoted-string   =  [CFWS]
 #                    DQUOTE *([FWS] qcontent) [FWS] DQUOTE
 #                    [CFWS]
 
-quoted_string = rf"(?: {CFWS}? \" (?: {FWS}? {qcontent} )* \" {CFWS}? )"
+quoted_string = rf"(?: {CFWS}? \" (?: {FWS}? {qcontent} )* {FWS}? \" {CFWS}? )"
 
 # atext           =   ALPHA / DIGIT /    ; Printable US-ASCII
 #                    "!" / "#" /        ;  characters not including
@@ -71,7 +74,9 @@ word = rf"(?: {atom} | {quoted_string} )"
 
 # phrase          =   1*word / obs-phrase
 
-phrase = rf"(?: {word}{{1,}} | obs_phrase )"
+# (written so that there is only one way to match a given phrase)
+_phrase_word = rf"(?: {atext} | \" (?: {FWS}? {qcontent} )* {FWS}? \" )"
+phrase = rf"(?: (?: {comment} | {WSP} )* {_phrase_word} (?: {_phrase_word} | {comment} | {WSP} )* )"
 
 # display-name    =   phrase
 
@@ -114,7 +119,8 @@ angle_addr = rf"(?: {CFWS}? \< {addr_spec} \> {CFWS}? )"
 
 # name-addr       =   [display-name] angle-addr
 
-name_addr = rf"(?: {display_name}? {angle_addr} )"
+# (a display-name's phrase includes any white space that precedes the "<")
+name_addr = rf"(?: {display_name} \< {addr_spec} \> {CFWS}? | {angle_addr} )"
 
 # mailbox         =   name-addr / addr-spec
 
-- 
2.43.0


From 5531d265523605c787ff77066939a41c3d20d7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:09 +0000
Subject: [PATCH 017/123] fix: comments in Server, User-Agent and Via can nest

---
 httplint/syntax/rfc9110.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/httplint/syntax/rfc9110.py b/httplint/syntax/rfc9110.py
index 3cfa258..2989f83 100644
--- a/httplint/syntax/rfc9110.py
+++ b/httplint/syntax/rfc9110.py
@@ -561,7 +561,10 @@ ctext = rf"(?: {HTAB} | {SP} | [\x21-\x27] | [\x2A-\x5b] | [\x5D-\x7E] | {obs_te
 
 #   comment = "(" *( ctext / quoted-pair / comment ) ")"
 
+# (comments nest; this allows two further levels)
 comment = rf"(?: \( (?: {ctext} | {quoted_pair} )* \) )"
+for _ in range(2):
+    comment = rf"(?: \( (?: {ctext} | {quoted_pair} | {comment} )* \) )"
 
 #   Server = product *( RWS ( product / comment ) )
 
-- 
2.43.0


From c84a39ff4113d96baa52e5ed7c628ddc14c662fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:16 +0000
Subject: [PATCH 018/123] fix: empty parameters don't backtrack exponentially

---
 httplint/syntax/rfc9110.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/httplint/syntax/rfc9110.py b/httplint/syntax/rfc9110.py
index 2989f83..5654314 100644
--- a/httplint/syntax/rfc9110.py
+++ b/httplint/syntax/rfc9110.py
@@ -121,7 +121,9 @@ parameter = rf"(?: {parameter_name} = {parameter_value} )"
 
 #   parameters = *( OWS ";" OWS [ parameter ] )
 
-parameters = rf"(?: {OWS} ; {OWS} {parameter}? )*"
+# (white space after a ";" without a parameter belongs to what follows, so that there's only one
+#  way to match it)
+parameters = rf"(?: {OWS} ; (?: {OWS} {parameter} )? )*"
 
 #   qvalue = ( "0" [ "." *3DIGIT ] ) / ( "1" [ "." *3"0" ] )
 
-- 
2.43.0


From 8fdbfadd5d3f3926aac273c8ff24358da86cdbe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:11 +0000
Subject: [PATCH 019/123] fix: CSP syntax doesn't backtrack polynomially on
 white space

---
 httplint/field/parsers/content_security_policy.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/httplint/field/parsers/content_security_policy.py b/httplint/field/parsers/content_security_policy.py
index 2b8e4d7..7d1d64d 100644
--- a/httplint/field/parsers/content_security_policy.py
+++ b/httplint/field/parsers/content_security_policy.py
@@ -17,7 +17,8 @@ DIRECTIVE_NAME = r"[a-zA-Z0-9-]+"
 DIRECTIVE_VALUE = r"[ \t\x21-\x2B\x2D-\x3A\x3C-\x7E]*"
 
 
-csp_directive = rf"(?: {DIRECTIVE_NAME} (?: {rfc9110.RWS} {DIRECTIVE_VALUE} )? )"  # pylint: disable=invalid-name
+# DIRECTIVE_VALUE includes white space, so there's only one way to match it before and after a value
+csp_directive = rf"(?: {DIRECTIVE_NAME} (?: [ \t] {DIRECTIVE_VALUE} )? )"  # pylint: disable=invalid-name
 
 
 class content_security_policy(HttpListField[ResponseLinterProtocol]):
@@ -27,7 +28,7 @@ The `Content-Security-Policy` response header allows web site administrators to
 sources of content that browsers are allowed to load on a page."""
     reference = "https://www.w3.org/TR/CSP3/"
 
-    syntax = rf"(?: {csp_directive} (?: {rfc9110.OWS} ; (?: {rfc9110.OWS} {csp_directive} )? )* )"
+    syntax = rf"(?: {csp_directive} (?: ; {rfc9110.OWS} {csp_directive}? )* )"
     category = categories.SECURITY
     deprecated = False
     report_only_string = ""
-- 
2.43.0


From f7ee7176d7dca42a466425fde9115e20b9262718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:43 +0000
Subject: [PATCH 020/123] fix: checks that use other fields don't depend on
 field order

---
 httplint/field/parsers/content_length.py | 2 +-
 httplint/field/parsers/date.py           | 2 +-
 httplint/field/parsers/last_modified.py  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/httplint/field/parsers/content_length.py b/httplint/field/parsers/content_length.py
index ff79636..204bcb6 100644
--- a/httplint/field/parsers/content_length.py
+++ b/httplint/field/parsers/content_length.py
@@ -35,7 +35,7 @@ store the response (since they can't be sure if they have the whole response).""
             add_note(CL_TOO_LARGE)
         return value
 
-    def evaluate(self, add_note: AddNoteMethodType) -> None:
+    def post_check(self, add_note: AddNoteMethodType) -> None:
         if "transfer-encoding" in self.message.headers.parsed:
             add_note(CL_AND_TE_PRESENT)
 
diff --git a/httplint/field/parsers/date.py b/httplint/field/parsers/date.py
index c190eaa..751280d 100644
--- a/httplint/field/parsers/date.py
+++ b/httplint/field/parsers/date.py
@@ -27,7 +27,7 @@ It is used by caches as input to expiration calculations, and to detect clock dr
     def parse(self, field_value: str, add_note: AddNoteMethodType) -> int:
         return parse_http_date(field_value, add_note, category=self.category)
 
-    def evaluate(self, add_note: AddNoteMethodType) -> None:
+    def post_check(self, add_note: AddNoteMethodType) -> None:
         if self.message.message_type == "response" and self.message.start_time and self.value:
             age_value = self.message.headers.parsed.get("age", 0) or 0
             skew = self.value - int(self.message.start_time) + age_value
diff --git a/httplint/field/parsers/last_modified.py b/httplint/field/parsers/last_modified.py
index 9ccce42..6192a2b 100644
--- a/httplint/field/parsers/last_modified.py
+++ b/httplint/field/parsers/last_modified.py
@@ -24,7 +24,7 @@ representation was last modified."""
     def parse(self, field_value: str, add_note: AddNoteMethodType) -> int:
         return parse_http_date(field_value, add_note, category=self.category)
 
-    def evaluate(self, add_note: AddNoteMethodType) -> None:
+    def post_check(self, add_note: AddNoteMethodType) -> None:
         date_value = self.message.headers.parsed.get("date", None)
         lm_value = self.value
         if lm_value:
-- 
2.43.0


From b92e5df78f4662135e0d3456010735a3ba6ca3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:50 +0000
Subject: [PATCH 021/123] fix: Cache-Control notes have a stable order

---
 httplint/field/parsers/cache_control.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/httplint/field/parsers/cache_control.py b/httplint/field/parsers/cache_control.py
index c9ef13e..bd6d029 100644
--- a/httplint/field/parsers/cache_control.py
+++ b/httplint/field/parsers/cache_control.py
@@ -141,7 +141,7 @@ ignoring it there."""
         if self.message.message_type == "response":
             for directive, potential_conflicts in CONFLICTING_CC:
                 if directive in cc_list:
-                    conflicts = list(set(cc_list).intersection(set(potential_conflicts)))
+                    conflicts = [d for d in potential_conflicts if d in cc_list]
                     if len(conflicts) > 0:
                         add_note(
                             CC_CONFLICTING,
@@ -150,7 +150,7 @@ ignoring it there."""
                         )
                         break  # only show the first conflict
 
-        for directive in set(cc_list):
+        for directive in dict.fromkeys(cc_list):
             # wrong message type
             if (
                 self.message.message_type == "request"
-- 
2.43.0


From 6f8b4fa00e8d30e87b0731e2b0121128c2826429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:03 +0000
Subject: [PATCH 022/123] fix: Content-Language notes have a stable order

---
 httplint/field/parsers/content_language.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/field/parsers/content_language.py b/httplint/field/parsers/content_language.py
index 6dff857..4215634 100644
--- a/httplint/field/parsers/content_language.py
+++ b/httplint/field/parsers/content_language.py
@@ -31,7 +31,7 @@ messsage. Note that this might not convey all of the languages used."""
                     if lang in seen:
                         duplicates.add(lang)
                     seen.add(lang)
-                for lang in duplicates:
+                for lang in sorted(duplicates):
                     add_note(CONTENT_LANGUAGE_DUP, lang=lang)
 
 
-- 
2.43.0


From d239c030f139a3e1bd9102ccb6d4fbb9102a5e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:10 +0000
Subject: [PATCH 023/123] fix: a boolean isn't a number in NEL, Report-To and
 CDN-Cache-Control

---
 httplint/field/parsers/cdn_cache_control.py |  2 +-
 httplint/field/parsers/nel.py               | 12 ++++++++----
 httplint/field/parsers/report_to.py         |  2 +-
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/httplint/field/parsers/cdn_cache_control.py b/httplint/field/parsers/cdn_cache_control.py
index fe58dab..45ba915 100644
--- a/httplint/field/parsers/cdn_cache_control.py
+++ b/httplint/field/parsers/cdn_cache_control.py
@@ -46,7 +46,7 @@ The `CDN-Cache-Control` header field targets cache directives to Content Deliver
                         )
                 elif value_func is int:
                     # Expecting integer
-                    if not isinstance(directive_val, int):
+                    if not isinstance(directive_val, int) or isinstance(directive_val, bool):
                         add_note(
                             BAD_CDN_CC_TYPE,
                             bad_directive=directive_name,
diff --git a/httplint/field/parsers/nel.py b/httplint/field/parsers/nel.py
index ecf9411..8a73e25 100644
--- a/httplint/field/parsers/nel.py
+++ b/httplint/field/parsers/nel.py
@@ -65,7 +65,7 @@ It allows websites to declare that they want to receive reports about network er
             if "max_age" not in policy:
                 add_note(NEL_MISSING_KEY, key="max_age")
                 clean = False
-            elif not isinstance(policy["max_age"], int):
+            elif not isinstance(policy["max_age"], int) or isinstance(policy["max_age"], bool):
                 add_note(NEL_BAD_TYPE, key="max_age", expected="integer")
                 clean = False
 
@@ -77,19 +77,23 @@ It allows websites to declare that they want to receive reports about network er
                 clean = False
 
             if "success_fraction" in policy:
-                if not isinstance(policy["success_fraction"], (int, float)):
+                if not isinstance(policy["success_fraction"], (int, float)) or isinstance(
+                    policy["success_fraction"], bool
+                ):
                     add_note(NEL_BAD_TYPE, key="success_fraction", expected="number")
                     clean = False
                 elif not 0.0 <= policy["success_fraction"] <= 1.0:
                     add_note(
                         NEL_BAD_VALUE,
                         key="success_fraction",
-                        details="itmust be between 0.0 and 1.0",
+                        details="it must be between 0.0 and 1.0",
                     )
                     clean = False
 
             if "failure_fraction" in policy:
-                if not isinstance(policy["failure_fraction"], (int, float)):
+                if not isinstance(policy["failure_fraction"], (int, float)) or isinstance(
+                    policy["failure_fraction"], bool
+                ):
                     add_note(NEL_BAD_TYPE, key="failure_fraction", expected="number")
                     clean = False
                 elif not 0.0 <= policy["failure_fraction"] <= 1.0:
diff --git a/httplint/field/parsers/report_to.py b/httplint/field/parsers/report_to.py
index ac38996..77b4cf9 100644
--- a/httplint/field/parsers/report_to.py
+++ b/httplint/field/parsers/report_to.py
@@ -25,7 +25,7 @@ It has been replaced by the Reporting-Endpoints header field."""
             # max_age is required
             if "max_age" not in group:
                 add_note(REPORT_TO_MISSING_KEY, key="max_age")
-            elif not isinstance(group["max_age"], int):
+            elif not isinstance(group["max_age"], int) or isinstance(group["max_age"], bool):
                 add_note(REPORT_TO_BAD_TYPE, key="max_age", expected="integer")
 
             # endpoints is required
-- 
2.43.0


From 8f14a89e3d60e1d7a53bf5f429bbc7b202e41a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:22 +0000
Subject: [PATCH 024/123] fix: values from messages can't add markup to a
 note's detail

---
 httplint/field/parsers/cache_status.py        |  6 +--
 httplint/field/parsers/clear_site_data.py     |  4 +-
 .../field/parsers/content_security_policy.py  |  5 +-
 .../content_security_policy_report_only.py    |  5 +-
 httplint/field/parsers/link.py                |  5 +-
 httplint/field/parsers/nel.py                 |  4 +-
 httplint/field/parsers/proxy_status.py        |  6 +--
 httplint/field/parsers/set_cookie.py          |  6 +--
 httplint/field/structured_field.py            |  6 +--
 httplint/field/utils.py                       | 21 +++++---
 httplint/note.py                              | 54 ++++++++++++-------
 httplint/util.py                              |  4 +-
 12 files changed, 73 insertions(+), 53 deletions(-)

diff --git a/httplint/field/parsers/cache_status.py b/httplint/field/parsers/cache_status.py
index c7e012c..c1566e1 100644
--- a/httplint/field/parsers/cache_status.py
+++ b/httplint/field/parsers/cache_status.py
@@ -6,7 +6,7 @@ from http_sf import Token
 from httplint.field.structured_field import StructuredField
 from httplint.field.tests import FieldTest
 from httplint.field.utils import check_sf_params
-from httplint.note import Note, categories, levels
+from httplint.note import MarkdownSafe, Note, categories, levels, markdown_code
 from httplint.types import (
     AddNoteMethodType,
     NoteClassListType,
@@ -41,10 +41,10 @@ debugging caches."""
                 CACHE_STATUS_UNKNOWN_PARAM,
                 CACHE_STATUS_BAD_PARAM_VAL,
             )
-            status_list.append(f"**{target_str}**:\n{param_str}")
+            status_list.append(f"**{markdown_code(target_str)}**:\n{param_str}")
 
         if status_list:
-            add_note(CACHE_STATUS, status="\n\n".join(status_list))
+            add_note(CACHE_STATUS, status=MarkdownSafe("\n\n".join(status_list)))
 
 
 KNOWN_PARAMS: Dict[str, Dict[str, Any]] = {
diff --git a/httplint/field/parsers/clear_site_data.py b/httplint/field/parsers/clear_site_data.py
index 4f49f07..21198c8 100644
--- a/httplint/field/parsers/clear_site_data.py
+++ b/httplint/field/parsers/clear_site_data.py
@@ -1,7 +1,7 @@
 from httplint.field import BAD_SYNTAX
 from httplint.field.list_field import HttpListField
 from httplint.field.tests import FieldTest
-from httplint.note import Note, categories, levels
+from httplint.note import MarkdownSafe, Note, categories, levels, markdown_code
 from httplint.syntax.rfc9110 import list_rule, quoted_string
 from httplint.types import (
     AddNoteMethodType,
@@ -53,7 +53,7 @@ origin."""
             return
         valid = [v for v in self.value if v in self.KNOWN_VALUES and v not in self._unquoted_values]
         if valid:
-            add_note(CSD_PRESENT, values=", ".join(f"`{v}`" for v in valid))
+            add_note(CSD_PRESENT, values=MarkdownSafe(", ".join(map(markdown_code, valid))))
 
 
 class CSD_PRESENT(Note):
diff --git a/httplint/field/parsers/content_security_policy.py b/httplint/field/parsers/content_security_policy.py
index 7d1d64d..3d513be 100644
--- a/httplint/field/parsers/content_security_policy.py
+++ b/httplint/field/parsers/content_security_policy.py
@@ -2,7 +2,7 @@ from typing import Dict, List
 
 from httplint.field.list_field import HttpListField
 from httplint.field.tests import FieldTest
-from httplint.note import MarkdownSafe, Note, categories, levels
+from httplint.note import MarkdownSafe, Note, categories, levels, markdown_code
 from httplint.syntax import rfc9110
 from httplint.types import (
     AddNoteMethodType,
@@ -176,8 +176,7 @@ sources of content that browsers are allowed to load on a page."""
                     )
 
     def _make_list(self, items: list[str]) -> MarkdownSafe:
-        safe = [item.replace("`", "") for item in items]
-        return MarkdownSafe("\n".join(f"* `{item}`" for item in safe))
+        return MarkdownSafe("\n".join(f"* {markdown_code(item)}" for item in items))
 
 
 class CONTENT_SECURITY_POLICY(Note):
diff --git a/httplint/field/parsers/content_security_policy_report_only.py b/httplint/field/parsers/content_security_policy_report_only.py
index a602c00..417dcf4 100644
--- a/httplint/field/parsers/content_security_policy_report_only.py
+++ b/httplint/field/parsers/content_security_policy_report_only.py
@@ -4,6 +4,7 @@ from httplint.field.parsers.content_security_policy import (
     content_security_policy,
 )
 from httplint.field.tests import FieldTest
+from httplint.note import MarkdownSafe
 from httplint.types import (
     NoteClassListType,
     ResponseLinterProtocol,
@@ -18,7 +19,9 @@ the effects of a content security policy without enforcing it."""
     reference = "https://www.w3.org/TR/CSP3/"
     deprecated = False
     report_only_string = " for reporting only"
-    report_only_text = "\n\nBrowsers will only report violations of this policy, not enforce it."
+    report_only_text = MarkdownSafe(
+        "\n\nBrowsers will only report violations of this policy, not enforce it."
+    )
 
 
 class CSPROTest(FieldTest[ResponseLinterProtocol]):
diff --git a/httplint/field/parsers/link.py b/httplint/field/parsers/link.py
index e5bff14..27bee3c 100644
--- a/httplint/field/parsers/link.py
+++ b/httplint/field/parsers/link.py
@@ -5,7 +5,7 @@ from httplint.field import BAD_SYNTAX
 from httplint.field.list_field import HttpListField
 from httplint.field.tests import FieldTest
 from httplint.field.utils import PARAM_REPEATS, parse_params
-from httplint.note import MarkdownSafe, Note, categories, levels
+from httplint.note import MarkdownSafe, Note, categories, levels, markdown_code
 from httplint.syntax import rfc3986, rfc8288, rfc9110
 from httplint.types import (
     AddNoteMethodType,
@@ -73,8 +73,7 @@ statement of the form "[context IRI] has a [relation type] resource at [target I
             hints_plain = ", ".join(present)
             lines = []
             for rel_name, targets in present.items():
-                safe = [t.replace("`", "") for t in targets]
-                lines.append(f"- `{rel_name}`: {', '.join(f'`{t}`' for t in safe)}")
+                lines.append(f"- `{rel_name}`: {', '.join(map(markdown_code, targets))}")
             add_note(
                 LINK_RESOURCE_HINTS,
                 hints=hints_plain,
diff --git a/httplint/field/parsers/nel.py b/httplint/field/parsers/nel.py
index 8a73e25..5335641 100644
--- a/httplint/field/parsers/nel.py
+++ b/httplint/field/parsers/nel.py
@@ -3,7 +3,7 @@ from typing import Any, List, Set
 from httplint.field.json_field import BAD_JSON, JsonField
 from httplint.field.parsers.reporting_endpoints import ENDPOINT_NOT_SECURE
 from httplint.field.tests import FieldTest
-from httplint.note import Note, categories, levels
+from httplint.note import MarkdownSafe, Note, categories, levels, markdown_code
 from httplint.types import (
     AddNoteMethodType,
     NoteClassListType,
@@ -135,7 +135,7 @@ It allows websites to declare that they want to receive reports about network er
         if resolved_endpoints:
             add_note(
                 NEL_CONFIGURED,
-                endpoints=", ".join(f"`{e}`" for e in resolved_endpoints),
+                endpoints=MarkdownSafe(", ".join(map(markdown_code, resolved_endpoints))),
             )
 
 
diff --git a/httplint/field/parsers/proxy_status.py b/httplint/field/parsers/proxy_status.py
index 28e4eb2..c89823c 100644
--- a/httplint/field/parsers/proxy_status.py
+++ b/httplint/field/parsers/proxy_status.py
@@ -6,7 +6,7 @@ from http_sf import Token
 from httplint.field.structured_field import StructuredField
 from httplint.field.tests import FieldTest
 from httplint.field.utils import check_sf_params
-from httplint.note import Note, categories, levels
+from httplint.note import MarkdownSafe, Note, categories, levels, markdown_code
 from httplint.types import (
     AddNoteMethodType,
     NoteClassListType,
@@ -39,10 +39,10 @@ The `Proxy-Status` header field indicates how intermediaries have handled the re
                 PROXY_STATUS_UNKNOWN_PARAM,
                 PROXY_STATUS_BAD_PARAM_VAL,
             )
-            status_list.append(f"**{target_str}**:\n{param_str}")
+            status_list.append(f"**{markdown_code(target_str)}**:\n{param_str}")
 
         if status_list:
-            add_note(PROXY_STATUS, status="\n\n".join(status_list))
+            add_note(PROXY_STATUS, status=MarkdownSafe("\n\n".join(status_list)))
 
 
 KNOWN_PARAMS: Dict[str, Dict[str, Any]] = {
diff --git a/httplint/field/parsers/set_cookie.py b/httplint/field/parsers/set_cookie.py
index 4c0aade..04ff73f 100644
--- a/httplint/field/parsers/set_cookie.py
+++ b/httplint/field/parsers/set_cookie.py
@@ -5,7 +5,7 @@ from typing import Any, List, Optional, Tuple, Union
 from httplint.field import RFC6265
 from httplint.field.broken_field import BrokenField
 from httplint.field.tests import FieldTest
-from httplint.note import MarkdownSafe, Note, categories, levels
+from httplint.note import MarkdownSafe, Note, categories, levels, markdown_code
 from httplint.types import (
     AddNoteMethodType,
     DeferredNoteType,
@@ -60,9 +60,7 @@ requests to the server."""
         if hardened:
             add_note(
                 SET_COOKIE_HARDENED,
-                cookie_names=MarkdownSafe(
-                    ", ".join(f"`{n.replace('`', '')}`" for n in hardened)
-                ),
+                cookie_names=MarkdownSafe(", ".join(map(markdown_code, hardened))),
             )
 
         for note_adder, note, category, kwargs in self._deferred_notes:
diff --git a/httplint/field/structured_field.py b/httplint/field/structured_field.py
index 59eac3f..4758b0f 100644
--- a/httplint/field/structured_field.py
+++ b/httplint/field/structured_field.py
@@ -4,7 +4,7 @@ from typing import Generic
 import http_sf
 
 from httplint.field import HttpField
-from httplint.note import Note, categories, levels
+from httplint.note import MarkdownSafe, Note, categories, levels
 from httplint.types import AddNoteMethodType, TMessage
 
 RE_FLAGS = re.VERBOSE | re.IGNORECASE
@@ -53,9 +53,9 @@ class StructuredField(HttpField[TMessage], Generic[TMessage]):
                 bad_char_index = why.position
                 context_start = max(0, bad_char_index - CONTEXT_CHARS)
                 context_end = min(len(combined_value), bad_char_index + CONTEXT_CHARS)
-                context_str = combined_value[context_start:context_end]
+                context_str = " ".join(combined_value[context_start:context_end].splitlines())
                 pointer = " " * (bad_char_index - context_start) + "^"
-                context = f"\n\n    {context_str}\n    {pointer}"
+                context = MarkdownSafe(f"\n\n    {context_str}\n    {pointer}")
             add_note(
                 STRUCTURED_FIELD_PARSE_ERROR,
                 problem=problem,
diff --git a/httplint/field/utils.py b/httplint/field/utils.py
index 5fa2a9c..83a5cee 100644
--- a/httplint/field/utils.py
+++ b/httplint/field/utils.py
@@ -6,7 +6,7 @@ from urllib.parse import unquote as urlunquote
 
 from http_sf import Token
 
-from httplint.note import Note, categories, levels
+from httplint.note import Note, categories, levels, markdown_code
 from httplint.syntax import rfc6838, rfc9110
 from httplint.types import AddNoteMethodType, ParamDictType
 
@@ -260,7 +260,7 @@ def check_sf_params(
     for param_name, param_value in params.items():
         if param_name not in known_params:
             add_note(unknown_param_note, param=param_name)
-            param_list.append(f"* `{param_name}`: `{param_value}`")
+            param_list.append(f"* {markdown_code(param_name)}: {markdown_code(param_value)}")
         else:
             expected_type = known_params[param_name].get("type")
             if expected_type and not isinstance(param_value, expected_type):
@@ -269,7 +269,7 @@ def check_sf_params(
                     param=param_name,
                     value=param_value,
                 )
-                param_list.append(f"* `{param_name}`: `{param_value}`")
+                param_list.append(f"* {markdown_code(param_name)}: {markdown_code(param_value)}")
                 continue
 
             allowed_values = known_params[param_name].get("values")
@@ -279,7 +279,7 @@ def check_sf_params(
                     param=param_name,
                     value=param_value,
                 )
-                param_list.append(f"* `{param_name}`: `{param_value}`")
+                param_list.append(f"* {markdown_code(param_name)}: {markdown_code(param_value)}")
                 continue
 
             if "value_desc" in known_params[param_name]:
@@ -287,17 +287,22 @@ def check_sf_params(
                 if desc:
                     param_list.append(f"* {desc}")
                 else:
-                    param_list.append(f"* `{param_name}`: `{param_value}`")
+                    param_list.append(
+                        f"* {markdown_code(param_name)}: {markdown_code(param_value)}"
+                    )
             elif "desc" in known_params[param_name]:
                 if param_value is True:
                     param_list.append(f"* {known_params[param_name]['desc']}")
                 else:
-                    param_list.append(f"* {known_params[param_name]['desc'] % param_value}")
+                    desc = known_params[param_name]["desc"].replace("`%s`", "%s")
+                    param_list.append(f"* {desc % markdown_code(param_value)}")
             else:
                 if param_value is True:
-                    param_list.append(f"* `{param_name}`")
+                    param_list.append(f"* {markdown_code(param_name)}")
                 else:
-                    param_list.append(f"* `{param_name}`: `{param_value}`")
+                    param_list.append(
+                        f"* {markdown_code(param_name)}: {markdown_code(param_value)}"
+                    )
 
     return "\n".join(param_list)
 
diff --git a/httplint/note.py b/httplint/note.py
index f73b1b6..75962ba 100644
--- a/httplint/note.py
+++ b/httplint/note.py
@@ -1,12 +1,13 @@
 from __future__ import annotations
 
+import re
 from collections import UserList
 from enum import Enum
 from threading import local
 from typing import Any, Dict, MutableMapping, Optional, Type
 
 from markdown import Markdown
-from markupsafe import Markup
+from markupsafe import Markup, escape
 
 from httplint.i18n import L_, translate
 from httplint.types import NoteListType, VariableType
@@ -23,14 +24,26 @@ class MarkdownSafe(str):
     """
     Marker for var values that are pre-composed Markdown.
 
-    Note._get_detail strips backticks from interpolated var values so
-    wire-supplied data cannot close a code span and inject raw HTML.
-    Wrap a value in MarkdownSafe(...) when the backticks (or other
-    Markdown syntax) in the value were produced by library code and
-    must survive interpolation intact.
+    Note._get_detail keeps interpolated var values away from the Markdown
+    renderer, so wire-supplied data cannot be interpreted as markup.
+    Wrap a value in MarkdownSafe(...) when it is Markdown produced by library
+    code; wire-supplied data in it needs to be formatted with markdown_code(...).
     """
 
 
+def markdown_code(value: Any) -> MarkdownSafe:
+    """
+    Format a value as a Markdown code span that it can't break out of.
+    """
+    text = re.sub(r"[\r\n]+", " ", str(value).replace("`", ""))
+    return MarkdownSafe(f"`{text or ' '}`")
+
+
+# delimiters for the place of a value in Markdown; private use characters
+PLACE_START = "\ue000"
+PLACE_END = "\ue001"
+
+
 def _get_markdown() -> Markdown:
     """Return a per-thread Markdown instance, creating it on first use."""
     if not hasattr(_md_local, "md"):
@@ -137,26 +150,29 @@ class Note:
         """
         Show the HTML text for the message as a Unicode string.
 
-        The resulting string is already HTML-encoded.  Variable values are
-        passed as plain strings; the Markdown renderer handles escaping.
-        Template authors must wrap user-controlled vars in backtick code
-        spans (or indented code blocks) so Markdown escapes them correctly.
+        The resulting string is already HTML-encoded. Variable values are not
+        interpreted as Markdown; they're escaped and put into the rendered HTML.
 
-        As defense-in-depth, backticks are stripped from each interpolated
-        value so a wire-supplied backtick cannot close the surrounding
-        code span and let the rest of the value render as raw HTML.
         Values that are pre-composed Markdown produced by library code
         (e.g. a joined list of code spans) should be wrapped in
-        MarkdownSafe to opt out of this stripping.
+        MarkdownSafe to opt out of this.
         """
-        def _coerce(val: Any) -> str:
+        values = []
+
+        def _place(val: Any) -> str:
             if isinstance(val, MarkdownSafe):
-                return str(val)
-            return str(val).replace("`", "")
+                return val.replace(PLACE_START, "").replace(PLACE_END, "")
+            values.append(str(val))
+            return f"{PLACE_START}{len(values) - 1}{PLACE_END}"
 
-        safe_vars = {k: _coerce(v) for k, v in self.vars.items()}
+        safe_vars = {k: _place(v) for k, v in self.vars.items()}
+        html = _get_markdown().reset().convert(translate(self._text) % safe_vars)
         return Markup(
-            _get_markdown().reset().convert(translate(self._text) % safe_vars)
+            re.sub(
+                f"{PLACE_START}([0-9]+){PLACE_END}",
+                lambda match: escape(values[int(match.group(1))]),
+                html,
+            )
         )
 
     summary = property(_get_summary)
diff --git a/httplint/util.py b/httplint/util.py
index d7a7fe0..092f5e7 100644
--- a/httplint/util.py
+++ b/httplint/util.py
@@ -70,11 +70,11 @@ def markdown_list(inlist: List[str], markup: str = "") -> MarkdownSafe:
     """
     Format a list of strings into Markdown.
 
-    Each item has backticks stripped so wire-supplied content cannot
+    Each item has backticks and line breaks stripped so wire-supplied content cannot
     close the surrounding `markup` span. The result is MarkdownSafe so
     Note._get_detail preserves the structural markup on interpolation.
     """
-    safe = [i.replace("`", "") for i in inlist]
+    safe = [" ".join(i.replace("`", "").splitlines()) or " " for i in inlist]
     return MarkdownSafe("\n".join(f"- {markup}{i}{markup}" for i in safe))
 
 
-- 
2.43.0


From 0cf7d95a51fe51c2829012c6db919be53cf28631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:02 +0000
Subject: [PATCH 025/123] fix: a small Brotli chunk can't use an unlimited
 amount of memory

---
 httplint/content_encoding.py | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/httplint/content_encoding.py b/httplint/content_encoding.py
index d36eed9..e1c9c0f 100644
--- a/httplint/content_encoding.py
+++ b/httplint/content_encoding.py
@@ -2,7 +2,7 @@ import binascii
 import hashlib
 import weakref
 import zlib
-from typing import Any, Callable, Dict, List, Optional
+from typing import Any, Callable, Dict, Iterator, List, Optional
 
 import brotli
 
@@ -220,14 +220,13 @@ class BrotliProcessor:
             return
 
         try:
-            chunk = self._brotli_processor.process(chunk)
-            if chunk:
-                self._decompressed += len(chunk)
+            for decompressed in self._decompress(chunk):
+                self._decompressed += len(decompressed)
                 if self._decompressed > MAX_DECOMPRESSED_BYTES:
                     self.message.notes.add("field-content-encoding", DECOMPRESSION_LIMIT)
                     self.ok = False
                     return
-                self.next_processor(chunk)
+                self.next_processor(decompressed)
         except brotli.error as brotli_error:
             self.message.notes.add(
                 "field-content-encoding",
@@ -239,6 +238,25 @@ class BrotliProcessor:
             self.ok = False
 
 
+    def _decompress(self, chunk: bytes) -> Iterator[bytes]:
+        """
+        Decompress a chunk piece by piece, where the brotli library supports that, so that a
+        small chunk can't use an unlimited amount of memory.
+        """
+        if not hasattr(self._brotli_processor, "can_accept_more_data"):
+            yield self._brotli_processor.process(chunk)
+            return
+        max_chunk_size = 1024 * 1024
+        while True:
+            decompressed = self._brotli_processor.process(chunk, output_buffer_limit=max_chunk_size)
+            yield decompressed
+            if self._brotli_processor.is_finished() or (
+                len(decompressed) < max_chunk_size and self._brotli_processor.can_accept_more_data()
+            ):
+                return
+            chunk = b""
+
+
 class DECOMPRESSION_LIMIT(Note):
     category = categories.CONNEG
     level = levels.BAD
-- 
2.43.0


From 038c737f93b7c72ec466d279069b15f5640aff8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:16 +0000
Subject: [PATCH 026/123] fix: responses that can't be stored aren't recorded
 as storable

---
 httplint/cache.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/httplint/cache.py b/httplint/cache.py
index d0de641..9708f8f 100644
--- a/httplint/cache.py
+++ b/httplint/cache.py
@@ -116,8 +116,10 @@ class ResponseCacheChecker:
             ):
                 self.notes.add("field-cache-control", STORE_STORABLE)
             elif "s-maxage" in self.cc_dict:
+                self.store_private = False
                 self.notes.add("field-cache-control", STORE_STORABLE_SHARED_ONLY)
             else:
+                self.store_shared = self.store_private = False
                 self.notes.add("field-cache-control", STORE_UNSTORABLE)
                 return False
 
-- 
2.43.0


From e9ab98cd9e73ce0f8547a5feee6cdddac60f6934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:22 +0000
Subject: [PATCH 027/123] fix: use RFC9110's list of heuristically cacheable
 status codes

---
 httplint/cache.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/cache.py b/httplint/cache.py
index 9708f8f..34bcc45 100644
--- a/httplint/cache.py
+++ b/httplint/cache.py
@@ -7,7 +7,7 @@ from httplint.util import clamp_seconds, relative_time
 
 ### configuration
 CACHEABLE_METHODS = ["GET", "HEAD"]
-HEURISTIC_CACHEABLE_STATUS = [200, 203, 206, 300, 301, 410]
+HEURISTIC_CACHEABLE_STATUS = [200, 203, 204, 206, 300, 301, 308, 404, 405, 410, 414, 501]
 
 
 class ResponseCacheChecker:
-- 
2.43.0


From 0d2d696a02cce62d21cbf059a88e289b610e74fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:06 +0000
Subject: [PATCH 028/123] fix: the CLI accepts an explicit input mode, and
 reads its input as bytes

---
 httplint/cli/__init__.py    | 2 +-
 httplint/cli/http_parser.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/httplint/cli/__init__.py b/httplint/cli/__init__.py
index f0a01c0..8eebd20 100644
--- a/httplint/cli/__init__.py
+++ b/httplint/cli/__init__.py
@@ -11,7 +11,7 @@ def main() -> None:
     with set_locale(args.locale):
         start_time = time.time() if args.now else None
         parser = HttpCliParser(args, start_time)
-        parser.handle_input(sys.stdin.read().encode("utf-8", "replace"))
+        parser.handle_input(sys.stdin.buffer.read())
 
 
 def getargs() -> Namespace:
diff --git a/httplint/cli/http_parser.py b/httplint/cli/http_parser.py
index e9bbb5e..67ce06c 100644
--- a/httplint/cli/http_parser.py
+++ b/httplint/cli/http_parser.py
@@ -22,7 +22,7 @@ class HttpCliParser(HttpMessageHandler):
 
     def __init__(self, args: Namespace, start_time: Optional[float] = None) -> None:
         self.start_time = start_time
-        self.mode = args.mode
+        self.mode = modes(args.mode)
         self.linter: HttpMessageLinter
         HttpMessageHandler.__init__(self)
 
-- 
2.43.0


From 4027baa6a05cfc51cbced2c43dce738220616045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:20 +0000
Subject: [PATCH 029/123] fix: the CLI reports on messages that are incomplete

---
 httplint/cli/http_parser.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/httplint/cli/http_parser.py b/httplint/cli/http_parser.py
index 67ce06c..fb1afbe 100644
--- a/httplint/cli/http_parser.py
+++ b/httplint/cli/http_parser.py
@@ -28,8 +28,9 @@ class HttpCliParser(HttpMessageHandler):
 
     def handle_input(self, inbytes: bytes) -> None:
         HttpMessageHandler.handle_input(self, inbytes)
-        if self._input_delimit == Delimiters.CLOSE and self._input_state == States.HEADERS_DONE:
-            self.input_end([])
+        if self._input_state == States.HEADERS_DONE:
+            # there isn't any more input; unless that's how it ends, the message is incomplete
+            self.input_end([], self._input_delimit == Delimiters.CLOSE)
 
     def input_start(
         self,
@@ -61,8 +62,8 @@ class HttpCliParser(HttpMessageHandler):
     def input_body(self, chunk: bytes) -> None:
         self.linter.feed_content(chunk)
 
-    def input_end(self, trailers: RawFieldListType) -> None:
-        self.linter.finish_content(True, trailers)
+    def input_end(self, trailers: RawFieldListType, complete: bool = True) -> None:
+        self.linter.finish_content(complete, trailers)
         notes = sorted(self.linter.notes, key=lambda n: n.category.value)
         current_category = None
         for note in notes:
-- 
2.43.0


From f1c3d6867aa0123ced1e5317ff36db024f310dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:20 +0000
Subject: [PATCH 030/123] fix: relative times don't stop linting in a locale
 that Babel doesn't have

---
 httplint/i18n.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/httplint/i18n.py b/httplint/i18n.py
index 37ef2fd..0f39d30 100644
--- a/httplint/i18n.py
+++ b/httplint/i18n.py
@@ -4,6 +4,7 @@ from contextvars import ContextVar
 from datetime import timedelta
 from typing import Any, Dict, Generator, Optional
 
+from babel.core import UnknownLocaleError
 from babel.dates import format_timedelta as babel_format_timedelta
 from babel.support import NullTranslations, Translations
 
@@ -56,7 +57,11 @@ def format_timedelta(delta: timedelta | int, **kwargs: Any) -> str:
     Format a timedelta object.
     """
     locale = _locale_var.get()
-    return babel_format_timedelta(delta, locale=locale, **kwargs)
+    try:
+        return babel_format_timedelta(delta, locale=locale, **kwargs)
+    except (UnknownLocaleError, ValueError):
+        # as for messages, use English if the locale isn't available
+        return babel_format_timedelta(delta, locale="en", **kwargs)
 
 
 def L_(message: str) -> str:  # pylint: disable=invalid-name
-- 
2.43.0


From f709337dc387a8c1d902532ac8060d9f403613f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:47 +0000
Subject: [PATCH 031/123] fix: Transfer-Encoding notes have a stable order

---
 httplint/field/parsers/transfer_encoding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/field/parsers/transfer_encoding.py b/httplint/field/parsers/transfer_encoding.py
index f4f1366..9e27535 100644
--- a/httplint/field/parsers/transfer_encoding.py
+++ b/httplint/field/parsers/transfer_encoding.py
@@ -59,7 +59,7 @@ Transfer codings can only be used in HTTP/1; HTTP/2 and HTTP/3 do not support th
                 unwanted = {c for c in unwanted if c not in te}
 
         if unwanted:
-            for coding in unwanted:
+            for coding in sorted(unwanted):
                 add_note(TRANSFER_CODING_UNWANTED, coding=coding)
         if "identity" in [c[0] for c in self.value]:
             add_note(TRANSFER_CODING_IDENTITY)
-- 
2.43.0


From cb9bc677d7975669d0a6327373df9a69158df169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:53 +0000
Subject: [PATCH 032/123] fix: Accept-CH and Vary are compared without regard
 to case

---
 httplint/field/parsers/accept_ch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/field/parsers/accept_ch.py b/httplint/field/parsers/accept_ch.py
index 806ba1a..f785fe0 100644
--- a/httplint/field/parsers/accept_ch.py
+++ b/httplint/field/parsers/accept_ch.py
@@ -54,7 +54,7 @@ willing to process."""
             for item in self.value:
                 # item is (value, params)
                 field_name = item[0]
-                if field_name not in vary_header:
+                if str(field_name).lower() not in vary_header:
                     missing_vary.append(str(field_name))
 
             if missing_vary:
-- 
2.43.0


From 5b93611f311135a20e1f940857f9677eea6bb921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:59 +0000
Subject: [PATCH 033/123] fix: the note about a missing Content-Range is about
 that field

---
 httplint/status.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/status.py b/httplint/status.py
index cf013b7..a087709 100644
--- a/httplint/status.py
+++ b/httplint/status.py
@@ -98,7 +98,7 @@ class StatusChecker:
         if self.request and not get_header(self.request.headers.text, "range"):
             self.add_note("", PARTIAL_NOT_REQUESTED)
         if "content-range" not in self.response.headers.parsed:
-            self.add_note("field-location", PARTIAL_WITHOUT_RANGE)
+            self.add_note("field-content-range", PARTIAL_WITHOUT_RANGE)
 
     def status207(self) -> None:  # Multi-Status
         pass
-- 
2.43.0


From 202fe3edb87816d2aabc9edbc414f4cc3717fbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:06 +0000
Subject: [PATCH 034/123] fix: 100-continue isn't case-sensitive

---
 httplint/status.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/httplint/status.py b/httplint/status.py
index a087709..c8626a4 100644
--- a/httplint/status.py
+++ b/httplint/status.py
@@ -56,8 +56,14 @@ class StatusChecker:
             return
         status_method()
 
+    def _expectations(self) -> List[str]:
+        "The expectations in the request; they're case-insensitive."
+        if self.request is None:
+            return []
+        return [e.lower() for e in get_header(self.request.headers.text, "expect")]
+
     def status100(self) -> None:  # Continue
-        if self.request and not "100-continue" in get_header(self.request.headers.text, "expect"):
+        if self.request and "100-continue" not in self._expectations():
             self.add_note("status", UNEXPECTED_CONTINUE)
 
     def status101(self) -> None:  # Switching Protocols
@@ -237,7 +243,7 @@ class StatusChecker:
 
     def status417(self) -> None:  # Expectation Failed
         if self.request:
-            expect_headers = get_header(self.request.headers.text, "expect")
+            expect_headers = self._expectations()
             if not expect_headers:
                 self.add_note("", STATUS_417_WITHOUT_EXPECT)
                 return
-- 
2.43.0


From fdd10583ef66d138bdbf6c6db8b5793f180f2e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:48 +0000
Subject: [PATCH 035/123] fix: gzip content can have more than one member

---
 httplint/content_encoding.py | 50 ++++++++++++++++++++++++++++--------
 1 file changed, 39 insertions(+), 11 deletions(-)

diff --git a/httplint/content_encoding.py b/httplint/content_encoding.py
index e1c9c0f..0ed7194 100644
--- a/httplint/content_encoding.py
+++ b/httplint/content_encoding.py
@@ -83,12 +83,27 @@ class GzipProcessor:
         self._gzip_processor = zlib.decompressobj(-zlib.MAX_WBITS)
         self._in_gzip = False
         self._gzip_header_buffer = b""
+        self._footer_left = 0  # bytes of the last member's footer yet to be seen
+        self._first_member = True
         self._decompressed = 0
         self.ok = True
 
     def __call__(self, chunk: bytes) -> None:
-        if not self.ok:
-            return
+        # RFC1952 Section 2.2: there can be more than one member
+        piece_size = 64 * 1024  # avoids copying a large chunk for each of many small members
+        for start in range(0, len(chunk), piece_size):
+            piece = chunk[start : start + piece_size]
+            while piece and self.ok:
+                piece = self._process_member(piece)
+
+    def _process_member(self, chunk: bytes) -> bytes:
+        """
+        Process a chunk of a gzip member; returns what follows the member, if anything.
+        """
+        if self._footer_left:
+            footer = chunk[: self._footer_left]
+            self._footer_left -= len(footer)
+            return chunk[len(footer) :]
 
         if not self._in_gzip:
             self._gzip_header_buffer += chunk
@@ -97,16 +112,19 @@ class GzipProcessor:
                 self._in_gzip = True
                 self._gzip_header_buffer = b""
             except IndexError:
-                return  # not a full header yet
+                return b""  # not a full header yet
             except IOError as gzip_error:
-                self.message.notes.add(
-                    "field-content-encoding",
-                    BAD_GZIP,
-                    gzip_error=str(gzip_error),
-                )
+                # like other implementations, ignore anything after the first member
+                # that isn't another one.
+                if self._first_member:
+                    self.message.notes.add(
+                        "field-content-encoding",
+                        BAD_GZIP,
+                        gzip_error=str(gzip_error),
+                    )
                 self.ok = False
                 self._gzip_header_buffer = b""
-                return
+                return b""
 
             # Since _read_gzip_header strips the header, 'chunk' is now the payload start.
             # We clear the buffer.
@@ -120,7 +138,7 @@ class GzipProcessor:
                 if self._decompressed > MAX_DECOMPRESSED_BYTES:
                     self.message.notes.add("field-content-encoding", DECOMPRESSION_LIMIT)
                     self.ok = False
-                    return
+                    return b""
                 self.next_processor(decompressed)
 
             while self._gzip_processor.unconsumed_tail:
@@ -131,7 +149,7 @@ class GzipProcessor:
                     if self._decompressed > MAX_DECOMPRESSED_BYTES:
                         self.message.notes.add("field-content-encoding", DECOMPRESSION_LIMIT)
                         self.ok = False
-                        return
+                        return b""
                     self.next_processor(decompressed)
                 else:
                     break
@@ -145,6 +163,16 @@ class GzipProcessor:
                 chunk_sample=display_bytes(chunk),
             )
             self.ok = False
+            return b""
+
+        if not self._gzip_processor.eof:
+            return b""
+        rest = self._gzip_processor.unused_data
+        self._gzip_processor = zlib.decompressobj(-zlib.MAX_WBITS)
+        self._in_gzip = False
+        self._first_member = False
+        self._footer_left = 8
+        return rest
 
     @staticmethod
     def _read_gzip_header(content: bytes) -> bytes:
-- 
2.43.0


From 85e55e6d927052a2f50b90a533e780eb53a98f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:56 +0000
Subject: [PATCH 036/123] fix: field name aliases are all found, and modules
 aren't found by their own names

---
 httplint/field/finder.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/httplint/field/finder.py b/httplint/field/finder.py
index 9150f54..ea65f9d 100644
--- a/httplint/field/finder.py
+++ b/httplint/field/finder.py
@@ -9,11 +9,11 @@ from httplint.types import AddNoteMethodType, LinterProtocol, SectionProtocol
 class HttpFieldFinder:
     """Finds the linter for a given HTTP field."""
 
-    # map of field name aliases, lowercase-normalised
+    # map of field name aliases, lowercase-normalised, to the module that handles them
     field_aliases = {
-        "x-pad-for-netscrape-bug": "x-pad",
-        "xx-pad": "x-pad",
-        "x-browseralignment": "x-pad",
+        "x-pad-for-netscrape-bug": "x_pad",
+        "xx-pad": "x_pad",
+        "x-browseralignment": "x_pad",
         "nncoection": "connectiox",
         "cneonction": "connectiox",
         "yyyyyyyyyy": "connectiox",
@@ -53,9 +53,6 @@ class HttpFieldFinder:
         """
 
         name_token = HttpFieldFinder.name_token(field_name)
-        if name_token in HttpFieldFinder.field_aliases:
-            name_token = HttpFieldFinder.field_aliases[name_token]
-
         module = HttpFieldFinder.find_module(field_name)
         if module and hasattr(module, name_token):
             return cast(Type[HttpField[Any]], getattr(module, name_token))
@@ -71,10 +68,11 @@ class HttpFieldFinder:
         Return a module for the given field name, or None if it can't be found.
         """
         name_token = HttpFieldFinder.name_token(field_name)
-        if name_token[0:1] == "_":  # these are special
-            return None
-        if name_token in HttpFieldFinder.field_aliases:
-            name_token = HttpFieldFinder.field_aliases[name_token]
+        norm_name = field_name.lower()
+        if norm_name not in HttpFieldFinder.field_aliases:
+            # a field isn't found by the name of the module that handles it
+            if "_" in norm_name or norm_name == "from-field":
+                return None
         try:
             module_name = f"httplint.field.parsers.{name_token}"
             return sys.modules[module_name]
@@ -86,7 +84,8 @@ class HttpFieldFinder:
         """
         Return a tokenised, python-friendly name for a field.
         """
-        return field_name.replace("-", "_").lower()
+        norm_name = field_name.lower()
+        return HttpFieldFinder.field_aliases.get(norm_name, norm_name.replace("-", "_"))
 
 
 class UnknownHttpField(HttpField[Any]):
-- 
2.43.0


From b3c035b8ef99ae7a7005ae1a54ed71e6a12bcd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:11 +0000
Subject: [PATCH 037/123] fix: the subject of a note about a field is always
 field-NAME

---
 httplint/charset.py      |  6 +++---
 httplint/content_type.py |  2 +-
 httplint/field/cors.py   | 12 ++++++------
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/httplint/charset.py b/httplint/charset.py
index 933f658..c106cef 100644
--- a/httplint/charset.py
+++ b/httplint/charset.py
@@ -100,7 +100,7 @@ def verify_charset(linter: LinterProtocol) -> None:  # pylint: disable=too-many-
 
     if not decodes:
         linter.notes.add(
-            "content-type",
+            "field-content-type",
             CHARSET_UNDECODABLE,
             declared_charset=effective_charset_raw,
             detected_charset=detected_raw or "unknown",
@@ -115,7 +115,7 @@ def verify_charset(linter: LinterProtocol) -> None:  # pylint: disable=too-many-
     ):
         if is_implicit:
             linter.notes.add(
-                "content-type",
+                "field-content-type",
                 CHARSET_IMPLICIT_MISMATCH,
                 media_type=declared_type,
                 declared_charset=effective_charset_raw,
@@ -123,7 +123,7 @@ def verify_charset(linter: LinterProtocol) -> None:  # pylint: disable=too-many-
             )
         else:
             linter.notes.add(
-                "content-type",
+                "field-content-type",
                 CHARSET_MISMATCH,
                 declared_charset=effective_charset_raw,
                 detected_charset=detected_raw,
diff --git a/httplint/content_type.py b/httplint/content_type.py
index 646e2b4..58e8591 100644
--- a/httplint/content_type.py
+++ b/httplint/content_type.py
@@ -48,7 +48,7 @@ def verify_content_type(linter: LinterProtocol) -> None:
         ]:
             return
         linter.notes.add(
-            "content-type",
+            "field-content-type",
             CONTENT_TYPE_MISMATCH,
             declared_type=declared_type,
             sniffed_type=str(sniffed_type),
diff --git a/httplint/field/cors.py b/httplint/field/cors.py
index 637dad2..7397a74 100644
--- a/httplint/field/cors.py
+++ b/httplint/field/cors.py
@@ -71,7 +71,7 @@ def check_preflight_response(message: ResponseLinterProtocol) -> None:
 
         if bad_headers:
             message.notes.add(
-                "header-access-control-allow-headers",
+                "field-access-control-allow-headers",
                 CORS_PREFLIGHT_ONLY,
                 headers=", ".join(bad_headers),
             )
@@ -81,7 +81,7 @@ def check_preflight_response(message: ResponseLinterProtocol) -> None:
         acao_value = message.headers.parsed["access-control-allow-origin"]
         if isinstance(acao_value, str):
             if " " in acao_value or "," in acao_value:
-                message.notes.add("header-access-control-allow-origin", ACAO_MULTIPLE_VALUES)
+                message.notes.add("field-access-control-allow-origin", ACAO_MULTIPLE_VALUES)
 
 
 def check_access_control_allow_origin(  # pylint: disable=invalid-name
@@ -108,25 +108,25 @@ def check_access_control_allow_origin(  # pylint: disable=invalid-name
         request_origin_str = str(request_origin)
 
     if acao_value == "null":
-        message.notes.add("header-access-control-allow-origin", CORS_ORIGIN_NULL)
+        message.notes.add("field-access-control-allow-origin", CORS_ORIGIN_NULL)
         return
 
     if acao_value == "*":
         message.notes.add(
-            "header-access-control-allow-origin",
+            "field-access-control-allow-origin",
             CORS_ORIGIN_STAR,
         )
         return
 
     if acao_value == request_origin_str:
         message.notes.add(
-            "header-access-control-allow-origin",
+            "field-access-control-allow-origin",
             CORS_ORIGIN_MATCH,
             origin=request_origin_str,
         )
     else:
         message.notes.add(
-            "header-access-control-allow-origin",
+            "field-access-control-allow-origin",
             CORS_ORIGIN_MISMATCH,
             origin=request_origin_str,
             acao_value=acao_value,
-- 
2.43.0


From 1cdf93837d42bed61e6128e9414fc8e31d882dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:52 +0000
Subject: [PATCH 038/123] fix: recognise HTTP/1.0 as it's given to
 process_request_topline in the README

---
 httplint/field/parsers/expect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/field/parsers/expect.py b/httplint/field/parsers/expect.py
index fe43ec6..bac8f7c 100644
--- a/httplint/field/parsers/expect.py
+++ b/httplint/field/parsers/expect.py
@@ -19,7 +19,7 @@ fulfilled by the server in order to properly handle the request."""
     deprecated = False
 
     def evaluate(self, add_note: AddNoteMethodType) -> None:
-        if self.message.version == "1.0":
+        if self.message.version in ["1.0", "HTTP/1.0"]:
             add_note(EXPECT_HTTP_1_0)
 
         unknown_expectations = []
-- 
2.43.0


From 1dca6c2435c8ac5a319ea86ee956c53df8c64ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:45 +0000
Subject: [PATCH 039/123] fix: notes about a missing CSP reporting endpoint go
 with the right policy

---
 httplint/field/parsers/content_security_policy.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/httplint/field/parsers/content_security_policy.py b/httplint/field/parsers/content_security_policy.py
index 3d513be..5f39886 100644
--- a/httplint/field/parsers/content_security_policy.py
+++ b/httplint/field/parsers/content_security_policy.py
@@ -154,10 +154,13 @@ sources of content that browsers are allowed to load on a page."""
                 if value in known_endpoints:
                     continue
 
-                # Find the parent note
+                # Find this field's parent note
                 parent_note = None
                 for note in self.message.notes:
-                    if isinstance(note, CONTENT_SECURITY_POLICY):
+                    if (
+                        isinstance(note, CONTENT_SECURITY_POLICY)
+                        and note.vars["field_name"] == self.canonical_name
+                    ):
                         parent_note = note
                         break
 
-- 
2.43.0


From 7732ee961e1a23ef0ded35ea66dfed8f2c9d524b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:36 +0000
Subject: [PATCH 040/123] fix: commas in Link targets, Via comments and
 entity-tags don't split list members

---
 httplint/field/list_field.py            |  7 +++++--
 httplint/field/parsers/if_match.py      |  2 ++
 httplint/field/parsers/if_none_match.py |  2 ++
 httplint/field/parsers/link.py          |  8 ++++----
 httplint/field/parsers/via.py           |  1 +
 httplint/field/utils.py                 | 25 +++++++++++--------------
 6 files changed, 25 insertions(+), 20 deletions(-)

diff --git a/httplint/field/list_field.py b/httplint/field/list_field.py
index 183f00f..c5a71bf 100644
--- a/httplint/field/list_field.py
+++ b/httplint/field/list_field.py
@@ -3,7 +3,7 @@ from functools import partial
 from typing import Any, Generic
 
 from httplint.field import BAD_SYNTAX, BAD_SYNTAX_DETAILED, HttpField
-from httplint.field.utils import RE_FLAGS, split_list_field
+from httplint.field.utils import LIST_ITEM, RE_FLAGS, split_list_field
 from httplint.syntax import rfc9110
 from httplint.types import AddNoteMethodType, TMessage
 
@@ -13,6 +13,9 @@ class HttpListField(HttpField[TMessage], Generic[TMessage]):
     A HTTP field that allows multiple values, separated by commas.
     """
 
+    # What members are made of; commas inside one of these don't separate members.
+    list_item = LIST_ITEM
+
     def parse(self, field_value: str, add_note: AddNoteMethodType) -> Any:
         """
         Given a string representing one value (after comma splitting), parse and return the result.
@@ -21,7 +24,7 @@ class HttpListField(HttpField[TMessage], Generic[TMessage]):
         return field_value
 
     def handle_input(self, field_value: str, add_note: AddNoteMethodType, offset: int) -> None:
-        values = split_list_field(field_value)
+        values = split_list_field(field_value, self.list_item)
         i = 0
         for value in values:
             offset_add_note = partial(
diff --git a/httplint/field/parsers/if_match.py b/httplint/field/parsers/if_match.py
index 992b882..3a59655 100644
--- a/httplint/field/parsers/if_match.py
+++ b/httplint/field/parsers/if_match.py
@@ -15,6 +15,8 @@ having a current representation of the target resource."""
     reference = f"{rfc9110.SPEC_URL}#field.if-match"
     syntax = rfc9110.If_Match
     deprecated = False
+    # backslashes aren't special in an entity-tag
+    list_item = rf"(?: {rfc9110.opaque_tag} | {rfc9110.quoted_string} | [^,] )"
 
     def evaluate(self, add_note: AddNoteMethodType) -> None:
         pass
diff --git a/httplint/field/parsers/if_none_match.py b/httplint/field/parsers/if_none_match.py
index 02d90f4..245d86f 100644
--- a/httplint/field/parsers/if_none_match.py
+++ b/httplint/field/parsers/if_none_match.py
@@ -18,6 +18,8 @@ any current representation of the target resource."""
     syntax = rfc9110.If_None_Match
     category = categories.VALIDATION
     deprecated = False
+    # backslashes aren't special in an entity-tag
+    list_item = rf"(?: {rfc9110.opaque_tag} | {rfc9110.quoted_string} | [^,] )"
 
     def evaluate(self, add_note: AddNoteMethodType) -> None:
         pass
diff --git a/httplint/field/parsers/link.py b/httplint/field/parsers/link.py
index 27bee3c..4ae4fe6 100644
--- a/httplint/field/parsers/link.py
+++ b/httplint/field/parsers/link.py
@@ -25,12 +25,12 @@ statement of the form "[context IRI] has a [relation type] resource at [target I
     reference = f"{rfc8288.SPEC_URL}#header.link"
     syntax = rfc8288.Link
     deprecated = False
+    list_item = rf"(?: {rfc9110.quoted_string} | <[^<>]*> | [^,] )"
 
     def parse(self, field_value: str, add_note: AddNoteMethodType) -> Tuple[str, ParamDictType]:
-        try:
-            link_value, param_str = field_value.split(";", 1)
-        except ValueError:
-            link_value, param_str = field_value, ""
+        # semicolons inside the angle brackets are part of the target
+        _, link_value, rest = re.split(r"^(<[^<>]*>|[^;]*)", field_value, maxsplit=1)
+        param_str = rest.partition(";")[2]
         link_value = link_value.strip()[1:-1]  # trim the angle brackets
         param_dict = parse_params(
             param_str, add_note, ["rel", "rev", "anchor", "hreflang", "type", "media"]
diff --git a/httplint/field/parsers/via.py b/httplint/field/parsers/via.py
index 5203702..2cd95b0 100644
--- a/httplint/field/parsers/via.py
+++ b/httplint/field/parsers/via.py
@@ -18,6 +18,7 @@ the request/response chain."""
     reference = f"{rfc9110.SPEC_URL}#field.via"
     syntax = rfc9110.Via
     deprecated = False
+    list_item = rf"(?: {rfc9110.quoted_string} | {rfc9110.comment} | [^,] )"
 
     def evaluate(self, add_note: AddNoteMethodType) -> None:
         via_list = "<ul>" + "\n".join([f"<li><code>{v}</code></li>" for v in self.value]) + "</ul>"
diff --git a/httplint/field/utils.py b/httplint/field/utils.py
index 83a5cee..555fada 100644
--- a/httplint/field/utils.py
+++ b/httplint/field/utils.py
@@ -177,20 +177,17 @@ def split_string(instr: str, item: str, split: str) -> List[str]:
     return [h.strip() for h in re.findall(rf"{item}(?={split}|\s*$)", instr, re.VERBOSE)]
 
 
-def split_list_field(field_value: str) -> List[str]:
-    "Split a field field value on commas. needs to conform to the #rule."
-    return [
-        stripped
-        for stripped in (
-            f.strip()
-            for f in re.findall(
-                r'((?:[^",]|%s)+)(?=%s|\s*$)' % (rfc9110.quoted_string, r"(?:\s*(?:,\s*)+)"),
-                field_value,
-                RE_FLAGS,
-            )
-        )
-        if stripped
-    ]
+LIST_ITEM = rf"(?: {rfc9110.quoted_string} | [^,] )"
+
+
+def split_list_field(field_value: str, item: str = LIST_ITEM) -> List[str]:
+    """
+    Split a field field value on commas. needs to conform to the #rule.
+
+    Each member is a sequence of `item`s; commas inside one don't split the value.
+    """
+    members = (f.strip() for f in re.findall(rf"{item}+", field_value, RE_FLAGS))
+    return [member for member in members if member]
 
 
 def parse_params(
-- 
2.43.0


From 7fa596b3844e574e2bbc7e9ccd418067e65c4a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:05 +0000
Subject: [PATCH 041/123] fix: get_field_description fills in the field's name

---
 httplint/field/description.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/httplint/field/description.py b/httplint/field/description.py
index 6592f02..f25b152 100644
--- a/httplint/field/description.py
+++ b/httplint/field/description.py
@@ -11,7 +11,8 @@ def get_field_description(field_name: str) -> Optional[str]:
     """Return the description for the named field, or None if not found."""
     handler_class = HttpFieldFinder.find_handler_class(field_name)
     if handler_class is not None:
-        description = handler_class(field_name, _linter).description
-        if description:
-            return translate(description)
+        handler = handler_class(field_name, _linter)
+        if handler.description:
+            description = translate(handler.description)
+            return description.replace("%(field_name)s", handler.canonical_name)
     return None
-- 
2.43.0


From 993563cfd10bbe39ad430754383deb7b0a2dd4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:15 +0000
Subject: [PATCH 042/123] fix: white space around field names doesn't hide
 fields from caching and status checks

---
 httplint/cache.py  | 6 +++---
 httplint/status.py | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/httplint/cache.py b/httplint/cache.py
index 34bcc45..1234b3f 100644
--- a/httplint/cache.py
+++ b/httplint/cache.py
@@ -56,7 +56,7 @@ class ResponseCacheChecker:
             return False
 
         # is Date present?
-        text_fieldnames = [fn.lower() for (fn, fv) in self._response.headers.text]
+        text_fieldnames = [fn.strip().lower() for (fn, fv) in self._response.headers.text]
         if "date" not in text_fieldnames:
             self.notes.add("", DATE_CLOCKLESS)
             if "expires" in text_fieldnames or "last-modified" in text_fieldnames:
@@ -91,7 +91,7 @@ class ResponseCacheChecker:
 
         # authorization
         elif self._request is not None and "authorization" in [
-            k.lower() for k, v in self._request.headers.text
+            k.strip().lower() for k, v in self._request.headers.text
         ]:
             if "public" in self.cc_dict:
                 self.notes.add("field-cache-control", STORE_PUBLIC_AUTH, directive="public")
@@ -147,7 +147,7 @@ class ResponseCacheChecker:
 
     def check_freshness(self) -> bool:
         # check to see if there's an Expires, even if it's invalid
-        expires_hdr_present = "expires" in [n.lower() for (n, v) in self._response.headers.text]
+        expires_hdr_present = "expires" in self._response.headers.parsed
         self.has_explicit_freshness = False
         self.has_heuristic_freshness = False
         freshness_hdrs = ["field-date"]
diff --git a/httplint/status.py b/httplint/status.py
index c8626a4..f34ace8 100644
--- a/httplint/status.py
+++ b/httplint/status.py
@@ -27,7 +27,7 @@ def get_header(hdr_tuples: StrFieldListType, name: str) -> List[str]:
     return [
         v.strip()
         for v in sum(
-            [l.split(",") for l in [i[1] for i in hdr_tuples if i[0].lower() == name]],
+            [l.split(",") for l in [i[1] for i in hdr_tuples if i[0].strip().lower() == name]],
             [],
         )
     ]
-- 
2.43.0


From 612257673fa96912af87be5aad7ec7409f12e4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:31 +0000
Subject: [PATCH 043/123] fix: the first occurrence of a repeated Cache-Control
 directive is used for caching

---
 httplint/cache.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/httplint/cache.py b/httplint/cache.py
index 1234b3f..892625d 100644
--- a/httplint/cache.py
+++ b/httplint/cache.py
@@ -30,7 +30,8 @@ class ResponseCacheChecker:
         self.etag_value = response.headers.parsed.get("etag", None)
         self.vary_value = response.headers.parsed.get("vary", set())
         self.cc_value = response.headers.parsed.get("cache-control", [])
-        self.cc_dict = dict(self.cc_value)
+        # RFC9111 Section 4.2.1: the first occurrence of a directive is used
+        self.cc_dict = dict(reversed(self.cc_value))
 
         if self._request is not None:
             self.request_time = self._request.start_time
-- 
2.43.0


From 7cc6b8d688b926e98841400a8c3af1265ad348ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:53 +0000
Subject: [PATCH 044/123] fix: responses to authenticated requests also need
 something to allow storing them

---
 httplint/cache.py | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/httplint/cache.py b/httplint/cache.py
index 892625d..a831357 100644
--- a/httplint/cache.py
+++ b/httplint/cache.py
@@ -82,6 +82,20 @@ class ResponseCacheChecker:
             self.notes.add("field-cache-control", STORE_NO_STORE)
             return False
 
+        # something has to allow it to be stored
+        storable = (
+            "public" in self.cc_dict
+            or "private" in self.cc_dict
+            or bool(self.expires_value)
+            or "max-age" in self.cc_dict
+            or self._response.status_code in HEURISTIC_CACHEABLE_STATUS
+        )
+        if not storable and "s-maxage" not in self.cc_dict:
+            self.store_shared = self.store_private = False
+            self.notes.add("field-cache-control", STORE_UNSTORABLE)
+            return False
+        self.store_private = storable  # s-maxage is only for shared caches
+
         # private
         if "private" in self.cc_dict:
             self.store_shared = False
@@ -107,22 +121,10 @@ class ResponseCacheChecker:
             else:
                 self.store_shared = False
                 self.notes.add("field-cache-control", STORE_PRIVATE_AUTH)
+        elif storable:
+            self.notes.add("field-cache-control", STORE_STORABLE)
         else:
-            if (
-                "public" in self.cc_dict
-                or "private" in self.cc_dict
-                or self.expires_value
-                or "max-age" in self.cc_dict
-                or self._response.status_code in HEURISTIC_CACHEABLE_STATUS
-            ):
-                self.notes.add("field-cache-control", STORE_STORABLE)
-            elif "s-maxage" in self.cc_dict:
-                self.store_private = False
-                self.notes.add("field-cache-control", STORE_STORABLE_SHARED_ONLY)
-            else:
-                self.store_shared = self.store_private = False
-                self.notes.add("field-cache-control", STORE_UNSTORABLE)
-                return False
+            self.notes.add("field-cache-control", STORE_STORABLE_SHARED_ONLY)
 
         return True
 
-- 
2.43.0


From f2ec41f46b13802459686fd93a7b2daed8e624f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:59 +0000
Subject: [PATCH 045/123] fix: Expires gives explicit freshness when Date is
 there, even if the response's time isn't known

---
 httplint/cache.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/httplint/cache.py b/httplint/cache.py
index a831357..e2791dd 100644
--- a/httplint/cache.py
+++ b/httplint/cache.py
@@ -154,12 +154,12 @@ class ResponseCacheChecker:
         self.has_explicit_freshness = False
         self.has_heuristic_freshness = False
         freshness_hdrs = ["field-date"]
-        if expires_hdr_present and self.response_time:
+        if expires_hdr_present and (self.date_value or self.response_time):
             # An invalid Expires header means it's automatically stale
             self.has_explicit_freshness = True
             freshness_hdrs.append("field-expires")
             expires_lifetime = self.freshness_lifetime_shared = (self.expires_value or 0) - (
-                self.date_value or int(self.response_time)
+                self.date_value or int(self.response_time or 0)
             )
             self.freshness_lifetime_private = expires_lifetime
             self.freshness_lifetime_shared = expires_lifetime
-- 
2.43.0


From 0f711e2f861d63a4a6ef75cd91edbf36444e2e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:14 +0000
Subject: [PATCH 046/123] fix: no-cache and private without a value don't have
 the value None

---
 httplint/field/parsers/cache_control.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/field/parsers/cache_control.py b/httplint/field/parsers/cache_control.py
index bd6d029..ce85640 100644
--- a/httplint/field/parsers/cache_control.py
+++ b/httplint/field/parsers/cache_control.py
@@ -114,7 +114,7 @@ ignoring it there."""
             if value_func is None:
                 if directive_val is not None:
                     add_note(CC_SHOULD_NOT_HAVE_VALUE, directive=directive_name)
-            else:
+            elif directive_val is not None or value_func is int:
                 if value_func is int:
                     value_func = parse_non_negative
                 try:
-- 
2.43.0


From 93c9d39f1fb44f7e7f86a52e4095b0ecd6672849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:19 +0000
Subject: [PATCH 047/123] fix: max-stale doesn't need a value

---
 httplint/field/parsers/cache_control.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/httplint/field/parsers/cache_control.py b/httplint/field/parsers/cache_control.py
index ce85640..930e530 100644
--- a/httplint/field/parsers/cache_control.py
+++ b/httplint/field/parsers/cache_control.py
@@ -114,7 +114,9 @@ ignoring it there."""
             if value_func is None:
                 if directive_val is not None:
                     add_note(CC_SHOULD_NOT_HAVE_VALUE, directive=directive_name)
-            elif directive_val is not None or value_func is int:
+            elif directive_val is not None or (
+                value_func is int and directive_name != "max-stale"  # its value is optional
+            ):
                 if value_func is int:
                     value_func = parse_non_negative
                 try:
-- 
2.43.0


From c1fbdfc3fcf67ecfd0a98695a41d8f5e1fc53cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:52 +0000
Subject: [PATCH 048/123] fix: Cache-Control: public isn't unnecessary when it
 allows storing a response to an authenticated request

---
 httplint/cache.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/httplint/cache.py b/httplint/cache.py
index e2791dd..1a3234f 100644
--- a/httplint/cache.py
+++ b/httplint/cache.py
@@ -20,6 +20,7 @@ class ResponseCacheChecker:
         self.freshness_lifetime_private: int = 0
         self.store_shared = True
         self.freshness_lifetime_shared: int = 0
+        self.public_needed = False
 
         # RFC9111 Section 1.2.2: delta-seconds that are too large use the greatest integer
         # that can be represented
@@ -109,6 +110,7 @@ class ResponseCacheChecker:
             k.strip().lower() for k, v in self._request.headers.text
         ]:
             if "public" in self.cc_dict:
+                self.public_needed = True
                 self.notes.add("field-cache-control", STORE_PUBLIC_AUTH, directive="public")
             elif "must-revalidate" in self.cc_dict:
                 self.notes.add(
@@ -233,8 +235,10 @@ class ResponseCacheChecker:
             self.notes.add("", FRESHNESS_NONE)
 
         # check to see if public was necessary
-        if "public" in self.cc_dict and (
-            self.has_explicit_freshness or self.has_heuristic_freshness
+        if (
+            "public" in self.cc_dict
+            and not self.public_needed
+            and (self.has_explicit_freshness or self.has_heuristic_freshness)
         ):
             self.notes.add("field-cache-control", STORE_PUBLIC_UNNECESSARY)
         return True
-- 
2.43.0


From de4d94eef2d00817da126d725511c66a441f49cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:28 +0000
Subject: [PATCH 049/123] fix: dates that don't exist aren't valid HTTP dates

---
 httplint/field/utils.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/httplint/field/utils.py b/httplint/field/utils.py
index 555fada..20541a6 100644
--- a/httplint/field/utils.py
+++ b/httplint/field/utils.py
@@ -1,5 +1,6 @@
 import calendar
 import re
+from datetime import datetime
 from email.utils import parsedate as lib_parsedate
 from typing import Any, Dict, List, Optional, Tuple, Type, Union
 from urllib.parse import unquote as urlunquote
@@ -123,6 +124,14 @@ def parse_http_date(
             date_tuple = (date_tuple[0] + 1900,) + date_tuple[1:]
         else:
             date_tuple = (date_tuple[0] + 2000,) + date_tuple[1:]
+    # the syntax allows dates that don't exist, like 31 Feb
+    try:
+        datetime(*date_tuple[:5], min(date_tuple[5], 59))  # second 60 is a leap second
+        if date_tuple[5] > 60:
+            raise ValueError
+    except ValueError:
+        add_note(BAD_DATE_SYNTAX, category=category)
+        raise
     return calendar.timegm(date_tuple)
 
 
-- 
2.43.0


From 72a8443510ed21b6e6f70b413ae91b824ebfb24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:35 +0000
Subject: [PATCH 050/123] fix: a challenge with more than one parameter is one
 member of WWW-Authenticate and Proxy-Authenticate

---
 httplint/field/parsers/proxy_authenticate.py | 1 +
 httplint/field/parsers/www_authenticate.py   | 1 +
 httplint/syntax/rfc9110.py                   | 5 +++++
 3 files changed, 7 insertions(+)

diff --git a/httplint/field/parsers/proxy_authenticate.py b/httplint/field/parsers/proxy_authenticate.py
index 96587be..80673ee 100644
--- a/httplint/field/parsers/proxy_authenticate.py
+++ b/httplint/field/parsers/proxy_authenticate.py
@@ -11,3 +11,4 @@ scheme and parameters applicable to the proxy for this request-target."""
     reference = f"{rfc9110.SPEC_URL}#field.proxy-authenticate"
     syntax = rfc9110.Proxy_Authenticate
     deprecated = False
+    list_item = rfc9110.challenge_item
diff --git a/httplint/field/parsers/www_authenticate.py b/httplint/field/parsers/www_authenticate.py
index b1ace16..5396ace 100644
--- a/httplint/field/parsers/www_authenticate.py
+++ b/httplint/field/parsers/www_authenticate.py
@@ -12,6 +12,7 @@ indicates the authentication scheme(s) and parameters applicable."""
     reference = f"{rfc9110.SPEC_URL}#field.www-authenticate"
     syntax = rfc9110.WWW_Authenticate
     deprecated = False
+    list_item = rfc9110.challenge_item
 
 
 class WWWAuthenticateTest(FieldTest[ResponseLinterProtocol]):
diff --git a/httplint/syntax/rfc9110.py b/httplint/syntax/rfc9110.py
index 5654314..dd2f9ab 100644
--- a/httplint/syntax/rfc9110.py
+++ b/httplint/syntax/rfc9110.py
@@ -488,6 +488,11 @@ challenge = rf"""(?: {auth_scheme}
                         )?
 )"""
 
+# What a list of challenges is made of, for splitting it into members: a comma that's followed by an
+# auth-param continues a challenge, rather than starting another.
+
+challenge_item = rf"(?: {quoted_string} | , (?= {OWS} {auth_param} ) | [^,] )"
+
 #   Proxy-Authenticate = [ challenge *( OWS "," OWS challenge ) ]
 
 Proxy_Authenticate = list_rule(challenge)
-- 
2.43.0


From 6c980923cc1cb111c085faad08c55b1696eeec7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:35 +0000
Subject: [PATCH 051/123] fix: commas in comments don't split Server

---
 httplint/field/parsers/server.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/httplint/field/parsers/server.py b/httplint/field/parsers/server.py
index b28a995..4661840 100644
--- a/httplint/field/parsers/server.py
+++ b/httplint/field/parsers/server.py
@@ -15,6 +15,7 @@ handle the request."""
     reference = f"{rfc9110.SPEC_URL}#field.server"
     syntax = rfc9110.Server
     deprecated = False
+    list_item = rf"(?: {rfc9110.quoted_string} | {rfc9110.comment} | [^,] )"
 
     def parse(self, field_value: str, add_note: AddNoteMethodType) -> str:
         if len(field_value) > MAX_SERVER_LENGTH:
-- 
2.43.0


From b2605ccb65212206b68a549eebceced84c902ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:19 +0000
Subject: [PATCH 052/123] fix: only spaces and tabs are optional white space
 around a field's value

---
 httplint/field/list_field.py                  | 6 +++---
 httplint/field/parsers/content_disposition.py | 2 +-
 httplint/field/singleton_field.py             | 4 ++--
 httplint/field/utils.py                       | 2 +-
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/httplint/field/list_field.py b/httplint/field/list_field.py
index c5a71bf..ea95425 100644
--- a/httplint/field/list_field.py
+++ b/httplint/field/list_field.py
@@ -39,8 +39,8 @@ class HttpListField(HttpField[TMessage], Generic[TMessage]):
                     if isinstance(self.syntax, rfc9110.list_rule)
                     else self.syntax
                 )
-                if not re.match(rf"^\s*(?:{element_syntax})\s*$", value, RE_FLAGS):
-                    match = re.match(rf"^\s*(?:{element_syntax})", value, RE_FLAGS)
+                if not re.match(rf"^(?:{element_syntax})\Z", value, RE_FLAGS):
+                    match = re.match(rf"^(?:{element_syntax})", value, RE_FLAGS)
                     if match:
                         bad_char_index = match.end()
                         context_start = max(0, bad_char_index - 20)
@@ -65,7 +65,7 @@ class HttpListField(HttpField[TMessage], Generic[TMessage]):
                                 BAD_SYNTAX, ref_uri=self.reference, category=self.category
                             )
             try:
-                parsed_value = self.parse(value.strip(), offset_add_note)
+                parsed_value = self.parse(value, offset_add_note)
             except ValueError:
                 continue
             self.value.append(parsed_value)
diff --git a/httplint/field/parsers/content_disposition.py b/httplint/field/parsers/content_disposition.py
index 14ada6c..53158ef 100644
--- a/httplint/field/parsers/content_disposition.py
+++ b/httplint/field/parsers/content_disposition.py
@@ -21,7 +21,7 @@ The `Content-Disposition` header suggests a name to use when saving the file.
 When the disposition (the first value) is set to `attachment`, it also prompts browsers to download
 the file, rather than display it."""
     reference = "https://www.rfc-editor.org/rfc/rfc6266.html"
-    syntax = rf"(?:{rfc9110.token}(?:\s*;\s*{rfc9110.parameter})*)"
+    syntax = rf"(?:{rfc9110.token}(?: {rfc9110.OWS} ; {rfc9110.OWS} {rfc9110.parameter} )*)"
     deprecated = False
 
     def parse(self, field_value: str, add_note: AddNoteMethodType) -> Tuple[str, ParamDictType]:
diff --git a/httplint/field/singleton_field.py b/httplint/field/singleton_field.py
index 4f771f9..61826b0 100644
--- a/httplint/field/singleton_field.py
+++ b/httplint/field/singleton_field.py
@@ -34,11 +34,11 @@ class SingletonField(HttpField[TMessage], Generic[TMessage]):
                 add_note(SINGLE_HEADER_REPEAT)
             first_raw = self.raw_values[0]
             if self.syntax:
-                if not re.match(rf"^\s*(?:{self.syntax})\s*$", first_raw, RE_FLAGS):
+                if not re.match(rf"^[ \t]*(?:{self.syntax})[ \t]*\Z", first_raw, RE_FLAGS):
                     if self.report_syntax:
                         add_note(BAD_SYNTAX, ref_uri=self.reference)
             try:
-                self.value = self.parse(first_raw.strip(), add_note)
+                self.value = self.parse(first_raw.strip(" \t"), add_note)
             except ValueError:
                 self.value = None
 
diff --git a/httplint/field/utils.py b/httplint/field/utils.py
index 20541a6..4cb7a0e 100644
--- a/httplint/field/utils.py
+++ b/httplint/field/utils.py
@@ -195,7 +195,7 @@ def split_list_field(field_value: str, item: str = LIST_ITEM) -> List[str]:
 
     Each member is a sequence of `item`s; commas inside one don't split the value.
     """
-    members = (f.strip() for f in re.findall(rf"{item}+", field_value, RE_FLAGS))
+    members = (f.strip(" \t") for f in re.findall(rf"{item}+", field_value, RE_FLAGS))
     return [member for member in members if member]
 
 
-- 
2.43.0


From a18f8c6c2d017cbdac007aabc9fda25993646650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:39 +0000
Subject: [PATCH 053/123] fix: a pseudonym in Via can have a port

---
 httplint/syntax/rfc9110.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/syntax/rfc9110.py b/httplint/syntax/rfc9110.py
index dd2f9ab..3b87283 100644
--- a/httplint/syntax/rfc9110.py
+++ b/httplint/syntax/rfc9110.py
@@ -635,7 +635,7 @@ received_protocol = rf"(?: (?: {protocol_name} / )? {protocol_version} )"
 
 #   received-by = pseudonym [ ":" port ]
 
-received_by = rf"(?: (?: {uri_host} (?: : {port} )? ) | {pseudonym} )"
+received_by = rf"(?: (?: {uri_host} | {pseudonym} ) (?: : {port} )? )"
 
 #   Via = [ ( received-protocol RWS received-by [ RWS comment ] )
 #           *( OWS "," OWS ( received-protocol RWS received-by [ RWS comment ] ) ) ]
-- 
2.43.0


From 83c08045649146123ed13c927211bee586101870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:40 +0000
Subject: [PATCH 054/123] fix: a Content-Range with neither a range nor a
 length is reported

---
 httplint/field/parsers/content_range.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/httplint/field/parsers/content_range.py b/httplint/field/parsers/content_range.py
index 840b05e..d576f25 100644
--- a/httplint/field/parsers/content_range.py
+++ b/httplint/field/parsers/content_range.py
@@ -43,6 +43,8 @@ in `416` (Requested Range Not Satisfiable) responses."""
             # if we see a slash, it's likely the unit is missing
             if "/" in field_value:
                 add_note(CONTENT_RANGE_MISSING_UNIT)
+            else:
+                add_note(CONTENT_RANGE_MISSING_SLASH)
             raise
 
         try:
-- 
2.43.0


From 0b5ee435be1bc1b13872ab596747c04756ec1dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:48 +0000
Subject: [PATCH 055/123] fix: the unit in Range is a token, and is required

---
 httplint/field/parsers/range.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/httplint/field/parsers/range.py b/httplint/field/parsers/range.py
index b692ff8..cb4691d 100644
--- a/httplint/field/parsers/range.py
+++ b/httplint/field/parsers/range.py
@@ -1,8 +1,10 @@
+import re
 from dataclasses import dataclass
 from typing import List, Optional, Tuple
 
 from httplint.field.singleton_field import SingletonField
 from httplint.field.tests import FieldTest
+from httplint.field.utils import RE_FLAGS
 from httplint.note import Note, categories, levels
 from httplint.syntax import rfc9110
 from httplint.types import AddNoteMethodType, NoteClassListType, RequestLinterProtocol
@@ -35,10 +37,17 @@ parts of the representation that are specified."""
                 problem="the range specifier must contain an equals sign",
             )
             raise
+        if not re.fullmatch(rfc9110.range_unit, unit, RE_FLAGS):
+            add_note(
+                RANGE_BAD_SYNTAX,
+                ref_uri=self.reference,
+                problem="the range unit must be a token",
+            )
+            raise ValueError
 
         ranges: List[Tuple[Optional[int], Optional[int]]] = []
         for rng in rest.split(","):
-            rng = rng.strip()
+            rng = rng.strip(" \t")
             if "-" not in rng:
                 add_note(
                     RANGE_BAD_SYNTAX,
-- 
2.43.0


From 3be08a6aef5a614eac86f60507b2abd9089fb507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:15 +0000
Subject: [PATCH 056/123] fix: -0 isn't a non-negative integer

---
 httplint/field/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/httplint/field/utils.py b/httplint/field/utils.py
index 4cb7a0e..8ee68bb 100644
--- a/httplint/field/utils.py
+++ b/httplint/field/utils.py
@@ -137,11 +137,11 @@ def parse_http_date(
 
 def parse_integer(value: str) -> int:
     """
-    Parse ASCII digits, optionally preceded by a minus sign. Raises ValueError if it's bad.
+    Parse ASCII digits, or a negative number (not -0). Raises ValueError if it's bad.
 
     Unlike int(), doesn't allow a plus sign, underscores, whitespace or other digits.
     """
-    if not re.match(r"^-?[0-9]+\Z", value):
+    if not re.match(r"^(?:[0-9]+|-0*[1-9][0-9]*)\Z", value):
         raise ValueError("not an integer")
     return int(value)
 
-- 
2.43.0


From 4251d12dcf2297aa4f1f5d9572647dd78c95ede8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:01 +0000
Subject: [PATCH 057/123] fix: only spaces and tabs are white space in HSTS
 directives and around quoted strings

---
 httplint/field/parsers/strict_transport_security.py | 6 +++---
 httplint/field/utils.py                             | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/httplint/field/parsers/strict_transport_security.py b/httplint/field/parsers/strict_transport_security.py
index 1f45b21..b229994 100644
--- a/httplint/field/parsers/strict_transport_security.py
+++ b/httplint/field/parsers/strict_transport_security.py
@@ -37,7 +37,7 @@ browsers that it should only be communicated with using HTTPS, instead of using
             "includesubdomains": False,
             "preload": False,
         }
-        directives = [d.strip() for d in field_value.split(";")]
+        directives = [d.strip(" \t") for d in field_value.split(";")]
         if directives and directives[-1] == "":
             directives.pop()
             self._deferred_notes.append((HSTS_TRAILING_SEMICOLON, {}))
@@ -45,8 +45,8 @@ browsers that it should only be communicated with using HTTPS, instead of using
         seen_directives = set()
         for directive in directives:
             parts = directive.split("=", 1)
-            name = parts[0].strip().lower()
-            value = parts[1].strip() if len(parts) > 1 else None
+            name = parts[0].strip(" \t").lower()
+            value = parts[1].strip(" \t") if len(parts) > 1 else None
 
             if name in seen_directives:
                 self._deferred_notes.append((HSTS_DUPLICATE_DIRECTIVE, {"directive": name}))
diff --git a/httplint/field/utils.py b/httplint/field/utils.py
index 8ee68bb..a7b15b5 100644
--- a/httplint/field/utils.py
+++ b/httplint/field/utils.py
@@ -163,7 +163,7 @@ def unquote_string(instr: str) -> str:
     @return: unquoted string
     @rtype: unicode
     """
-    instr = str(instr).strip()
+    instr = str(instr).strip(" \t")
     if not instr or instr == "*":
         return instr
     if instr[0] == instr[-1] == '"':
-- 
2.43.0


From a753d8716763dd41f17a78ac8d23bcd02c63faf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:47 +0000
Subject: [PATCH 058/123] fix: references to RFC2616 and RFC6265 don't contain
 a placeholder

---
 httplint/field/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/httplint/field/__init__.py b/httplint/field/__init__.py
index 0f2afab..0e567a6 100644
--- a/httplint/field/__init__.py
+++ b/httplint/field/__init__.py
@@ -18,8 +18,8 @@ from httplint.types import (
 )
 
 # base URLs for references
-RFC2616 = "https://www.rfc-editor.org/rfc/rfc2616.html#%s"
-RFC6265 = "https://www.rfc-editor.org/rfc/rfc6265.html#%s"
+RFC2616 = "https://www.rfc-editor.org/rfc/rfc2616.html"
+RFC6265 = "https://www.rfc-editor.org/rfc/rfc6265.html"
 RFC6266 = "https://www.rfc-editor.org/rfc/rfc6266.html#section-4"
 
 ### configuration
-- 
2.43.0


From 77cdf5f078bffdd027e23007c3fbe0d7bf5b2759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:43 +0000
Subject: [PATCH 059/123] fix: the note about an Accept-Language q value names
 the language

---
 httplint/field/parsers/accept_language.py     |   2 +-
 .../translations/es/LC_MESSAGES/messages.mo   | Bin 173719 -> 173723 bytes
 .../translations/es/LC_MESSAGES/messages.po   |   6 +++---
 .../translations/fr/LC_MESSAGES/messages.mo   | Bin 177180 -> 177184 bytes
 .../translations/fr/LC_MESSAGES/messages.po   |   6 +++---
 .../translations/ja/LC_MESSAGES/messages.mo   | Bin 196564 -> 196568 bytes
 .../translations/ja/LC_MESSAGES/messages.po   |   6 +++---
 httplint/translations/messages.pot            |   4 ++--
 .../translations/zh/LC_MESSAGES/messages.mo   | Bin 155217 -> 155221 bytes
 .../translations/zh/LC_MESSAGES/messages.po   |   6 +++---
 10 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/httplint/field/parsers/accept_language.py b/httplint/field/parsers/accept_language.py
index c86f6dd..52480f7 100644
--- a/httplint/field/parsers/accept_language.py
+++ b/httplint/field/parsers/accept_language.py
@@ -67,7 +67,7 @@ preferred in the response."""
 class BAD_Q_VALUE(Note):
     category = categories.CONNEG
     level = levels.WARN
-    _summary = "The q value on '{language}' is invalid."
+    _summary = "The q value on '%(language)s' is invalid."
     _text = """\
 The `q` parameter must be a decimal number between 0 and 1, with at most 3 digits of precision."""
 
diff --git a/httplint/translations/es/LC_MESSAGES/messages.mo b/httplint/translations/es/LC_MESSAGES/messages.mo
index 4c32bc3a11bf844a27ba614de667dda188e516e0..77c1948f59f78fae2ef327a91e0c5734a66ec4e1 100644
GIT binary patch
delta 6520
zcmY+|cVJFeAHeb7IX0!*8VQ1E5{XS>&qRn(F_I=oLqaR5+M9|8C8^k>QBr%fMweMy
z)lzDfDn)f@YrX1iYZR^G{r>KG{(1lU+}}BOocp_HJ<sCf#q*CB|Da$gUxbJpdB%u(
z2UD<e86&Yc0UP38Y=D1ZI);~Z=jEbacLf_^>2gNuV;ok;@u>Byum&E*DtH&GV!86h
zC(m)vxV(`LI1RPpIO+p`$EFw@U?c!jFc?Q+Ma;vpxCQIrA&kU(SQTpq8d+{cp2KM3
z-zvC<)~@Ip_F_e!k$P0jp&$(R`n`hPiAz>8UIY80#+$J#KEh5IA7rEwE<wG12X@9E
zFbX3o8>xkTurkg>&CEvB7eD3WAd!PARoo3mVKw4>)Ej(?+Q8eGh9OmrG{@<fho56@
z>>2DnSvIyKK8m~WscJ@YG{#k!@T`&X_!l-NGrplAM)pzgcBqjo92jQgNh+?Pw)lQ^
zm-6!AMha5i6!pzpMHm^2GjJiA8b(^;8yJt@;B~B4)5sYtS<Bt$SJW3QRNKgQo-g4X
zY@y&sOvCwgjI_a9s2PZ?Yosk^Vl-~XR`@&i#M<>-inCG6xBBB-s12=B-$*hJMD5J`
zQ15#mQ+dABZeXMf1vBw^JdeGxZlsZL%th@~Td_4>#Wq+y%1C?6#5jB(b@bdr%|t>&
z*U9E%H{y@|@e_@VJSLNkum#VTMonCAABi!<>rvn2KYqiT(rLIL1GNEjn;993Cs2oJ
z>*lT@(@-;V6m>L&v~Vw$fO_9mSROC=%l}26eydI`-8Wl;`bO6<3G23Uakk&%*n;vh
ztzBliV<_<i)ReA7ZO|Fi-d&-MYd{8S{dUw$UPt|;m7^K|eR;Ef(MEdUz8E7nsVEz3
zBo~Xcb2nUo`k=Ge1Rr7uHfnF=9H!uHjEXZ-9K$;pnTwIA58jVDOz)#+rff$e|MI-p
zjy@x=Q4rnP$TA8J;6>v8UEE9-8*gMI@fg$w1$Q-a2sh(I9No=`;ksM+E%BZ1MmFJ5
z-lh<aO)ydzv+yWR^T*v1jT9kH_W2L`Vo?e*{P8fH%Z<mO&V)si+&s|S?;zBSEJID@
ze$?JwB-xd>M19l#*bWz<_NjAt&5D%oX=Em`Pg0DG;9wT&36D`Hm{u<^LEr>jhg<MH
z?3wB;(#Oaw8n^?WrMzvLo7*!`*MJ<<QLqbjg1U!wF*M!X_j!Dz&!5e~F)C*DbKkUA
ze>a{dAstyZA^lOVzG!4Hh7NGOcwvU??VC_DQ83dzs0QkA?1?pTC29tbp=RhY24KUN
zHA9TQcn)?`kcEi_M4AjVQjB;uPYcAws44ys!|*TEZ&zuEo5?~@GZlxri1~0E9zyM;
zSwoGC!qwP|7bri>NIvoK;S6K?pOhToZkRRFNDvj%u_~^?ZG5XQus7$8AHy5r>9KS|
zl<`JN;^7G_%Xs!xIvqC6auZbRNk&$3+GGr%JeY^|AZ|99Hz%HrzC;Q>nZguI!BbO7
zC4TXmk&%>NpJwDB_L=Thwa{$WnTDfIG&@nhb?F?pR>Yu=|8(q3!`GwM-<sh@Pe`tj
z@3{Z_m`;7}EXF@smm718aE>I+BNJ3yoX<BTzP8ZKboJhF6Vgi5<@6o~QXi7%CZbl0
z-MXHEovB}rt*F0_kr=UrhG6Pacir54`U3HWw@3;7PJUwWYYJml7@5Eg)~+=26joVf
z<UH2LpQtaf+Q=p1-`2QJb#kqdY~ljz+`b?e?{MCCsF^+SwvmAt@(xosFE$sOYWYT&
zsbaoOMkY}Zk1ybHOvM_T-3?zyU6jtD4$C_4x+!@eMiGCAx+Yvfof*U4a}De3cLC}!
zJb?Pi3cPQmBffyW(6^og-Mh&L?!?A^M`L%2x1z3Ig+6q1cM|Fvkc;}@FHuKF5js#=
z-n=vF1Jk#<d1D1GCvLaRJ@^u~C$6*I>!dyz&4J!%2iCy5sEbnY4wtH7sKaX`Hp5>~
z&kx$^OvM=DWqvQBHt^Yx+;wTF6Wg1pJE^mNi|*2LAH#(Mtr&;857>Y@f!sr#v0CqT
z^+Rzu@k-o^Pk-!Eeh_tnd5oQ~!6)w1WTCEhTTt(N1$FpE?Qspx!8SZ!j&PvEq{OH0
zK`l`mFa(ov2WkdN?RCSiJth#(LY;aqqP{@E&s+u@qGl)!HPtIoGjtWTFV*<moi`bM
z`i7f0(9UxKHC1KyxfCW~SK@i7^%qeWlfeDXzNj<aI@ApOjynE>zi>OB0e<KC-Hm#m
zOQ;PBI>7kXUY~Zr-Ea@;4~7B<-8ip}dO>g04aGv#OkG4x?bBbn2e(IEWX7Xj|2FE2
zeT_Qj8>UOmP-E2Lmx<b!Rv+@YRQy1JUQqO~kyo(^Y74iaHsBuWo7X$y9D~8cpP)`i
zKcY@NC5}3iQLkHrn$ho3?^p4d%WNO4M4a#AK)>}zsBa+0-J($kbuCChZP;+s7Oz5G
zx4%d28<}6ZIsP*&$?!`*VdMzqLr)s%kIlX|@+L0FIoSA=k=OAcu0dbdZ;YJc;5P2o
ziqkHha>i}P6TfwCN8J;aJ8R@69E`d)e1mOp={Yy<FQ7Iw@Vv`FBIXg#MjbUF-?^R8
zIizp-WbFml$?o7hPKf=U8}KG)uo9O3(M{2{e=<^zc-}?V(6@g!@-pZ5`^9a&j$u(t
z%70}s;=Ik5jeJG@(JMyI;?k=|*5Zh3ZWS&6AGUt<KWTfNMT85!{LR~u$e%YDUc`U=
zm%SUd{lmy%F6{KDk%w63CgYp(r*9eALmYS8$RaFs$4%u+aRYJSU+%j7s59W~yGGu{
zTKC+V@f}{%@t=O54F@;u^tbydmH3a5?<v2A`mGK;F!Bq=|LZQS|Io<S#2?`T%zb2J
zH3mI4vL8Rg&v2Sp@26QiW4%v%9*6UsMb=6N^@R&s@!jEI2nV~ce<3T0oDfvlN+}${
zTFj&-Q^;#3^(~8Ad4TJYIZIZTuwLg%E9q|dH)>}~FJ--r$3K`(od2ZtcE1mCAfM=P
zX)B*#)HBv68@SQUveuh8^2=M9#RV5}3=R&k-d5=nYVVyKXuak3$qH5)aa|q`ru=wC
zD{ZiOCF@PK6Oqm(N3b_m2y*dgJWYH6h3l7A_E|6W`BkhuL&3VLR&H^^u3)PRqHL~a
zz266^A=aBfe#QaRKOJi2eH@RP%7`%Qt$OoO*ZUK=7@JkM-X}SQI&Aa8t=BiIMeqW|
z$9x=|<e)$eQi7*(BF?XAWjdCsWo11s!e!XJwtJ)V_=q^Fj`ccUWL;N&2z69EThGdI
zoQ+>%N_{K$wY-6qWL~UNq?PAMf^Srm^|oF|8d-^^BC(0}cBy$yU1t7l=2G=fb1Uy~
zg9k0Fw>Mnd(t2C0fL7L9WRlt5<WRpHb1|%ql{fH1)J_~1ZM{)*5;cQ`+FJd|=957j
z=(tXcbq^fd&U!Q1l=fD%bIy(9n^HfmgOw0G)zQjRc(0T7HXOyCvr>z=N*C+>UU)9v
zb>7#zy6YBqvl37J<?hxkzX>#)`{rO{UH=bq5Kh4()ETaNqLqC(2~)W+nmjGS6-m}x
zR-<}aZ=D~7t2l2j>gt!?OK-@h!qRvQbxQvMbrCAj+jY`t)OaeU==lGL1KshINul%c
zp#E5gI4RY7JEG}+KR`|01=Q6rrjPY@I&)DMn`1Z@3-z@!1hY^Zb^~?qSS8JRTeTFd
zLA(NeH90uKfwuH6hG9s$JE1dnA|8Xfu78fzuy8+8juEIgPQn0OfVyaH!isnp%i?9!
z<@y1(z`Fgd_dnpE{*3>fyzwjw5~+xN$=z@XYD3PTrs`kRPt;(5%S;NsNSurP@DJ>c
zJu<Af>a9h+U(rnK?FUj(UoZ#ba69U!dYI{RDQft#d$UZ`4aQ9Di+fNX6vVWp<8>;A
z;x5#b|Ae}+2zbTHIP8egxDR!)DLBYIcmuX4KI^ygU^g$k<l{gmhKM27`_Z@^vxx@|
zWqgvEo2cVBZn&Ed%8np~l;>k0<>y9PZx47&rM%oI>uuMYjpo}@KNB}%i81cm@4#f@
zf3OJW`+AJ^#-a2c$MB*ee!NTdNIXyc7VgC{6Rf;~jb619gR4<9a2d5TR-Wkk$}6b#
zJMek@8?`fc&2kNxgt|Z2hY33VA9B!(g6@;tg`2P)@$WbYqxeMH;#H`h<ZslSO|QwW
zQ|&?RR5wu@QfG=A=dYq(_Z8~>!=}0!axz8}U%*JsQP68{+;>ME7VltF%gzS%O-g3F
zH|T~Ph<&Jw%OTW;2IRP9wGVbCKKZ)!e$rK%;Tn*S-6+3}x){agx`wa79{P>G;UE^n
zW?Jtr*H<u|I2ZN88>lyKIm<Z%Q;E-@&Kr@lUGJZYdj4tD;TAf_4bxtz8Olb@#D3K4
zg67gkx^OUvgSNQa?<3Umn0d_Ibdq^E5d#-6zA<m1Tj#eea+&Dzh8wQSup`%ffl*j0
z&&pkFiw(K1*<vdth=;vty?@CjzRCEHrXYNYn=l5VcB*V-Qk1<ohq%I9Y&^KZ27Ch7
zEqC+6mKAQ)T*KEmZ`n#K7ch908$}OM_kz<_Te(d6nl)}T%~)%_f7_DRHD(x4k+#ly
z|88euapJ-2UHLdHMm*VXE*2(Uw6$3EuWvjN8a^m}NXF>&jF%!t?!5Gj35qdIa%_^>
RX_M@{BL83gR;qo_;eVf+Hh};D

delta 6516
zcmYk=cVJIf8^H1B9II$igb*oWiy1Su62x91qDDlNNY$uNQNd56A{DE4Uc^j|4wO<_
zd(^0wwy5!HtEjfxDxy^JexG}Of4qNv?sLxXo_p?d&q|h^DzxNOp)Glf_^OG>i4sO?
z;2rFb<w_c9ixaRB?!hp;iwRgY!2K=*^}cJ^7>krLQXivG+f6~OUx_vGIF`qISOH6x
zHa_XXMWfP2I$#=V#Yxl$-okJ!A7~^H`(i~*#vojX0k{S0;8ARVxmW>flrfTRL^@$4
z@h@dvM?-^L#|8)ajMSrI76nytkKbz;O<cH~@j4iX8gIhx_%C+CF2P31;S$vQw_|6#
zgblIU3r1?;0DJ-8M$OCy)E7VP<06KO;PS44WDFtBLT%tP)DHfIgD|9mk!Cmz7vnyx
zjj<KoCwmK{h>zngEE-~DhQ_!WqbnJC1MgxJGUFRr*~mc(a;g}aj7e3E6s6(@YLD+%
zb14s~ZX_?|O;F#wc?}~eI0F~pQ*40?Y8vT=XYg075NhNs7Ov&m`4RO6^VBx-G0&H(
zTzo{qWgLWa>llf^+o&0+U)M+*OvFgsge~zFzJ#ImT#Da9E#K;oZ=-fJxW17-n1ni*
z_oKFZALDqwgoYXEO2OOM8_#1utlhv!b<98=R9mqXUdITm($GjdOvLv10qX3@Ma@KX
zBR9zAVh`e7{<u(MBTva>Lu}6TrD0Py+Q(pP;&rHR^0VKn;S3sX7>e3~*)JLyji*qj
zX^UpABWb7^IgUCTLYli5i$-mCC6>mk{_=m&r{AhW3-`^IpuW)!jK$h5UHq2clh~Z{
z;;md}x?>gM38*Q}M(xlysG~bD!gXLMYW+6UOx{HOq~#)+|M9%pphzP<aer$ge^F7Q
zt&y3SFUmDI5A{K3u_->n%Gj`-k?*iC-o>!?Mhaoo4o2o;ebfgZK%J)dQ8QDbqmh4k
zUh9rNBhx5o)!E1j3J&29#0g#9O4hoYkxj(oP&-t<yOCqK2`Ay$9!3oJ-NtjoccP8F
zhsSxFeE51VBl$5EPhy%s?iORD0C8`h{~`{bp<t*#9))vhcs%M#m_OF71L1y$qh@3o
zYAO$)j_!PYTzNCpH%-7OoQFE5&f!ff67Z6dOk&@YenyhHnAzX`;4$g~(|iC61Wv#l
z+=3rsY@9RSKqIs0;C8G;dE_9swhu+!1E!<Sf}N-fR4&%VN(rvrUid`ke<l}SP%(3`
z`=)(fcJp}>GLU5>G9Kmn5F;b8QlcBh?+kOJeIsfnY?6CWb=2t?i=mi}n!yvO8G4L?
z*x(h-5c97K7rQA)#h5%IjfWd4NSw*j%HSf@6mLdd<L{z=yRxI)N*02esVLM<Y%*@g
zqo{*4b+nOjxC;C70s*fXSw=j14AYqLCxw$;gQ;VU1XD2$E8uF}&bK;<d?iU4&l};_
zDGWk<GQr4m`1wS(Wjve8pu;AU-2&BOijh^cGX(=FFVDkz5;vX7n-gcEFNT8MZ?Xha
zP&AEH;=yS~#!`OsEh9&9z;w5(RZ4e*X*B9W^D*kTE;7UI6%nZOKOQ^N@pY*6x8HWN
zCuF9Pi?sg%CQzR-i}_F1<<~hz_>IKOBNJ3yd53REd}D!I>FO+U3sN@fcAAT9=@PQo
zEkw<ixP5&ncBXzgwxs?hHo$6GbOihV$K5x38DoKX{c=*mxRd`f`89<RD~(K~fi<g)
zJdeSvja<OG_&xOn*BH4*{L5N5sJ>ihB%RpgxN|`U-s5-Qp=S2fdLzRzWCKe#FE$&)
zwS1GyQ~}?6My62E1qa|sjKk{hy9U!yH>Go^)3VkFZb?qUhQymu_k?SxD`VvkUB}}5
z&O@DshfqJ6*=(dE_QSsDTgQc--JYQSu+bLhSd1p#in@E{+3MEr7}Px=1NFg2P-jOz
z22cQR-VwE(_-$_8Sb^EZZMM4yU&VIBwLbO+sZYjop$%=vns^U&Q!2m1rD_!F^xA+g
z;t#0558CPMkFAN9`MrYL!HS=_`v#(}e2Y;}QfK|<-=*a~rVAHZF&_0CupV^*$wghU
zTI_c9BXJCIHg3aWpSqMEMqOYYV<)Wlnfo-UsJq=3)ON3-PQS1{uEWzYg6GRIE_9j{
z-0L3H47CFzun%rW&A_w!-1KXUy@+R`F1=S!U%>8n8Ek->p@FEW&PL79b=0v`{eb)3
z6!hsEZsbA-&jr*}6+h@w7>(VD=b+YKLETJBA9BW_u6S!vGjI!a{+B=OPCi5Y&hh&R
zYCBg^I}~(;`LCmX;1Sp0r>K80n4@l<hoau_66%5C9n?%+K}~J3&)tLDqHZ!NsQ2ff
zzSvi&YyMNz3^iie)ajRqI+j))^SM-9qCjuRf80naHb(8?N2ndhMSb%+C!FK3BJpn2
z1?e*C!c*|1vp4E}t5Gw05w*QCU%1Q;z;eV{J}&fI??8QnC#ai7ty69<h(_($Xw)9B
zMBTS9qK=KkFWnly7oTJL#eZew1mz=78+jR<o-wi%m*X64^tF);JdA76*Yz7CUvu#n
z?$(NLUF<vSj^jPgIk%yn2}_<gG8A7$-5bte1TOu~&HD?e9W8yqWuPZ6CeB2iH6a(>
zN$4ChwtTYYk{e`qa2`KseVGP$lW(vb7P;b<=+N(tlp>z<gX?I{k49eM_k*swqt^+1
z#**@%*o^qyrt3z&r2hB~Bj<7H&qmhaYd7648t@B8KgOR#{>mo84M%?SP9*ZjEv6Uo
z@4s_)!^l649OuRkw~ai;;(sx}DKB=%$R6UTyG9mbo_lU7Uy2)vOXs@#4xp}pnfHx+
zfHnVid&YNoQ|EvD0}dQC*x{l3Q>y1bMlMr+1NB=SdSv7(cKO%cSog7!GsHV^K4v^I
zvIc{m8aae}aX+Ss_5L(#W32aS&*K=LGv8VnMt$DAR($uk7{SFZOvq;?h93mww^9UO
zV=rb=6CZg^qP|%nE01s;vS!Ju!qyvH1D|sZ{*5}=;)_`C;PC(xh_i}X@AUf!hx3U(
zFJ|R43@c%MvXO@V46xq9kyYBtEN-}h<MGu%>m8M@qK@7vWvsW|K3CRCWA0msBPl-_
zWF-Q_%UN%!ornxBIfnf(FxbUo@mu0UDBQpF1)ud&pH<#U2@2L$uyThV?5t>ojZZd(
zSnuzH{*|q_fP9aM)EBE_WizIrrm|X9>+O1TQTO{(xCEP4v)(5;jXG@?R=3{Rs8E9!
zAU@&a;xregCMm(MaT3lAwK5%_t!3q1oR2FoytaFz^Z0}~td8{tU;VnS{3z<Is94X+
zDa^#rv2T4V541eYN*`XVYy&I3NrErAq4kbl#~NFSq@rh2>zz^;hP%xC@uExBgJxDX
z(7?my);k-nX<@x1R;iZO+hlrkyqQ7$a-4~kBdjdK&8UMoD$;th=1bHJ=4oT~Pd1+n
z=R)W8z_#vzuSZ#LCG)kjqJwjGd%h|4X&tOo#?u|GJde4Ztasoj(8WqE;^3~<`+K2N
zH#d0GySw`q^{~>7`k$h$+kSh|aoU}ZO?3Z1%tdty{zYBks>E11h?6jm8(Wd5g}5Tt
zdfRH)OV-=xlW{e_+k?9M#rM?)`BYd8PoOU8mrysMg8keeZG{?7#r`_~cW|L6p5px(
zd^{)t>k!ApxsFZ4n#Av;rtUoIZrF05^-emOsGH3(OhFTGWfZ=F+OeCcXUCvH);p^8
zL2Yjt`a-!l%7ymy4pzkq3GN5&u@iAJ>b|}QL(mQ;<yZx^;hq?Xb1)d!V-Oy}0Q?bk
zyZ#%SW9ZA)`#)gP%gq0sym1BvF;qkhbqy{;?Z_F_R6RibM0FBfX8Pa|;&dF0zhN|X
z8)m&-Zxw2Ld6TSn9_Wkug43`)Zbki650iW@MfG2CZ#D$=fH4E(aTn@?%CKzde4T<-
z@MF}JUqU@tlzi371dPH++>5%|$O!k~9BfDUjo-2(-MWzA<3bmPDx<9TN8?sZCr%vA
z{3J8Kqt4?tW88Z1d@?Ddd<mAJ{M)hCI|KfqQeJ$V^^WU}U+3FWKLa;mf${F!e}sLA
z?_&Xe@9UQ0%|nTu!1SV`(;F_;qwxaqQrw5h6Ro_8VX0PHV>W6AencINWhc3@G7Po;
zBkYa2sDrulWY>X-sON*d*h}aCLoWJK&~=KtaXm&6|B5599-l~iyaM%;<f5KzdQWwO
zY8UFD`W>|+HQ#jeJO%Z>6R7Qnq`4Jx5=IiA#|E0CGSl3=?}|Dt)?v8i@QC^*1=HOd
zbioe9si>RFVbqS6oZ+_Be%P7#iwx`iNf-FG>%bE1LHVDkn^D9}*YRc8Q@_zyT(rfI
zOzZv2br>cPr=#9@6Sd*+S<dMgM|=i#-Kaa;js7X9zdwyS-73y;)3i5ghSE?ou@CjW
zGIJRtUAai&q7Clw`wwb)%XzHb43b$m2?ORczj6Kox6f}`=rYl9k(;hr*pd78V?!*o
z*vfrug^jqc@e(VAiAOB8-has^EM@*jQcyX|Ef|TYgDMSK6y;N#LtJV(2M-#^!Dn%G
zwp$lIT<K=bHJrxpvQ}BSgu$!bEP9A~7M!}q%5}<Du646%`a0|Vx2;!B6Q%(b19GhQ
z-|Zn-i1?LvUHLdHNIc1JI_4*yx2<5cGq(z*jz}0a?Dd3ULnrUNQNjebHce*ajWs*-
Q#@cxW{=afnoPE^ce@6E-_y7O^

diff --git a/httplint/translations/es/LC_MESSAGES/messages.po b/httplint/translations/es/LC_MESSAGES/messages.po
index 4955c31..de67129 100644
--- a/httplint/translations/es/LC_MESSAGES/messages.po
+++ b/httplint/translations/es/LC_MESSAGES/messages.po
@@ -2442,9 +2442,9 @@ msgstr ""
 "Consulte [su definición](%(ref_uri)s) para obtener más información."
 
 #: httplint/field/parsers/accept_language.py:68
-#, python-brace-format
-msgid "The q value on '{language}' is invalid."
-msgstr "El valor q en '{language}' es inválido."
+#, python-format
+msgid "The q value on '%(language)s' is invalid."
+msgstr "El valor q en '%(language)s' es inválido."
 
 #: httplint/field/parsers/accept_language.py:76
 msgid "The Accept-Language header isn't valid."
diff --git a/httplint/translations/fr/LC_MESSAGES/messages.mo b/httplint/translations/fr/LC_MESSAGES/messages.mo
index fe2ae280141c28d569bfb18726ea2d64895380a7..0e69aa2dbcf9c958350bdbce58c8c10a14b654e1 100644
GIT binary patch
delta 6520
zcmY+|d34TK8o=@AUbWQTu}dcrK_n5oSV|=Jpkj@XT2dlJ?fcTcc4{xRRcou7(%7P?
zQH+>w(NJ5BsUQ`kYSgH$tuo)|ci(^JoSgHy&;4z8zxU1i`9(M77v1whNne<VWR)?Z
zKENalENi3<PQ^xe4C~`VOvak!+<gmCpSy`sSh~ECde|OAaSH17%@~d+F$f=F6)a!D
z_@pz5#ubcoz&WTFvQa;H7n@>mMI#k434?Jw2H<KehZ$HKzs3gm7^`4JB_kV*NN0>C
z{<*R%Xk>sZ*x&%4k-A)1N=6Ml=JzIcBQEi>@d`KqHBQHPe1;vd%U_MWjO$RJKY*Pu
z2ODBoppjbG9|Lg_YRl|Et@v3ViJl~ag4_$nV^!kys4qB*TEJg%AXckl<Q1HYtMNES
zVq&oCvU%8+_#_^}m#P|>uQ6`M9wA1i;6rRo%lJlBGm=Th->MsV6VqxKDaD0+)Dk}l
zbxmHOrjZxOZ;D#;=rALb@NHa)CfrC1T!mfm9NxyN5k@XxiCXSG*HJ52Fw)3=zArUN
zWRP(M2jV-mjl|%6)D~z^$4F}&im{lE(RddVF|w{};(4g~`~2~J)Pe@pGtwK=PzQ4+
z>U*DHKfW)K^^Lqr#v<&6m#{C^X<(!#E<_zv`>-Y6!Wax~Xrvtu#rC)xb@n_)ZHXR@
z+#q`gyAmJv$Hk+JJf|h2usPqCs3vZ-kHc2P+fZxrli!+688keQidukW&5Vq~)2P$5
z<twfrb5L94B<gIa*4$OB2kLt_V+G9f=RZZC_EpCguFuw?)+iqnuuim#=lRXX=H!=c
z=~|{6Rwtf{+N7IM3v>Z>bXSgX1xQ7`z8|$EZ=-f;U@Y^005y9()<}2EY-QxXTqxJZ
z$U-dK*1d2A>W4036Z{jaVN^RK|H35v6&toUQWR@;FtQ9ApnmuS>NI_V+A`(hj6CIg
zZQ^`JW|I-y$;by}e1X@92fgZ6vNm0e>>!?qTA<)~BVS`WPR9vdjToN0kKYqN=w{>-
zJV|W|;-nr%3gMf066g5iu04$uChqO?Ck9{<GE)8VXk5yRC!?-}g%ey&n)w}ty0mUZ
zZR%5~O&ieLEimz@>%=6C!F|{rAD}6~5}oKO?u$!u3q&@?aYL`y+-Tj1IxFs>)+oB4
zYl+)_SM_H>p@1>;pU#pW2f7w3mh1}B0%OP@gSrA{U>&@Qx<HkBoh6*{C%s5~t2YjE
zn?&?r*H^=kR+o9$8ZV?!Vyu+v_JR+Fy3u|BwNFb8b1f8&T9I+6E9Vi^mbi<$mxQMo
zDS?Brna=;QB=(T86X()2{f8TQkvMOpn=W@zo4C*@SCby7eK!MjP%c1SSazX~{yfaa
zu+grI9^(w+;4!XCx1hFYy>YC#j6caCp&v||;FiV|3?p8EM=VW;{K@Fa)EIA0G4chr
zoMxmr7JSoqv*<5xu@?}J<)u1}H_f1ZiEm*=Or2$95cxA`Mkbo%p-&f#(78swB4Y;X
z3p&g<GM@a23yge&KckL?{cpR4q`*SA(zU~8<ZnT3i5%3Gu)rcCJt%l5)Oh0(w^`l7
z-+2F9jO;#KpS+y;&ogp%g%JuT{oZAh;lj05Mi_T;V~vp^yr9)OH+r{YDDhJ)&-H5W
zxk2^HdbchN#|~WIii}VB4>I7TGjqEoZr#8xi+LMaVX@d|+Giq(j$4e-Epq%rw+lA-
zh+U8u?Zta|94l*AY%_9$IQwHa*!FEVvYt2}b&Sl}!QkS)GZ;sFHQmTa4BN?WO8#1m
zBtE#?UBBTYF^!Bmd+0;_1p8yLy{-?_P&cE!s7+lw!!4cdQAhV8)V}^4^$1pApBtpj
z{HCI=nD1g&%*I#@{M5}J-#`+&*&Oow1a-PJ-tYE+ahOD$g<60b2iyyiQJeZh)SBPH
zKw7ZrK{xLcKQpqN{B^hz!w<Ov97P=yrT*@1&pzo*LQAv-bs@<^ePM~iu5bHdW8#IV
zn@=X{{m-#A#(wVh_qnJGOAhMx8*;=wmyEh=u0x&wmr$QCb5!qR{`VrGOXo_|ru+)E
z?@AtX(=gHRESySyIv&H&f4CRkLT&os<L<dc)E3=>x-R6Ro+~P3x})9*)PiPWd%iD4
zPPjF`E7l;Mje5fl?1T4EKhW`?ZkwLz_dC>GFz5?67~5b3@f6hOKSEuQenxGPx?dVe
z!I7wg@I3nTyl$EN+B6MOn|`D}K8ziSAELHU%-8M|JRW-ze~J2mfN$K|KM-SxSD;qp
z9BP;Tj=J`TWVtca1GP(*W-<TcNt_}>ZwNf;=64s=6>uWz=-q_+z$MfgR{GWzxGic0
zd{`a#qJHoq)<Vg4&qt!ZZwP8dm;3XxvVCsTDR9a)ac$J;nBtFfQ9n@ev>SXKQ42C3
zgYYZVmbrxq81S8&R%1~Q9w$-9fShr&D$4Iz3?O@#kA#lmEYub#dDhh=8bgQ&qt5dM
zs4Z~_bz0p=otCrDdB<qEij|putIiwwj{H3r+{!ugdn3Dv^YMLLd(kb$js9ii@5H`u
zNn9r}|B{hAIQ-v6?qcE(?tI_=GAktUG3<g-Iqt)A@icKRcE!C{T;JNO&K9T#m&v#a
zKfxmyd(B8LK1ZJONp7xtLH!?%tl+|IOrs{{uQQl%W}e#%GH=j_#6h==oZ!B=e7CKZ
z_{kM~DaNtHPP<K$bKe(tj9lctKmKFn3ZA=b<Zqbq3oXj^zW1mg<4+d-*KG;~e&t-w
z4dD;m2g4s4c|bh>k&)v#{jrfJ82yAn$O{_(X5=jKpx@nLGwKib)9OoHMt;mw*W}-!
zo*hU0>3)(u!P&$a&-n4`<3&-=-A}I0V&yX~yk@Ld;&Rr?65<E=GtMety@SL^w#Z||
zzu*SkUC?^Jpt=;Ya+%l^wqDJz;D^Kqide4#eP6WRX7_SYD}%{jS<H&>PZCc^9Kc7#
ztqh|;JK4f2Vueyx7}!#`w3Rfj%U`VM{lk&9Lxz=cAE;Z-N;3K9Q3qR8c`MuSCicfA
z6|9`XJNO}8bhx6G92^i}eX@-gwP0_I=Z3r>E8DSQ6)U6h3U0*sVC$U&enDND6RKLN
z#dDi*GI4f@^%kmj)vPy2-$7lVu3;)Rs_qK%0e(aL6zlN(mo<D=N|SgLYNZku4zu1Y
z2oATxIFXVOR@U*rvs%_$2i8Vf8AzOkdoiN6l`)uuy2QrUvGO`DK`r<_)G@NWu9dYo
zsGgN{e2TiMZTHo;-p}t`JWj^e2G-kThBTyah;uOmlN(vtgk_^#P4?q+jT>9pqBgPe
z8Xm;*8aH)gAp*}47ingtC>6SlZ{V$0=xVya*RzF{<zyUfX{8;;$66VRt6NzqgwI=B
z?*vq+t*g;ve2W*ZX=i05*UPuJ-hVvicCg;4KZ9EEWai@An2U>Wct<Nux&JZh;H%f!
zN*g`@uO^{=@x!auo0rAntv9`zcXfkpXg9_N*N1d>gYp0;%ksphds=zOi*ELE&tFck
z-kGj=qLruQcjAQEiTgVAwbB9KO|srfoAa9Ms^EUw1r&7viMl+n27BYzn1faNyV>vz
zr}2WJ1E~S|dC6{&1-@?eKNvCsb+ZW>WWAG9SA2<hF^1p<e|{#mBz}fb7(JLls!cV4
zgdU}`keMfCQv4-MbuS*^cQFp*zC)OZAw#XV&rio#;!K>6FVL~-V$=ecO|ue%T~O~^
zhGBRHec>ejAfYW#W4M*d*c)}59gF>N1L{8i6#t5`Z&+__AAoVhD=-KzV^zHm12JfX
z_5R@yje2%W!1nkK>iw5SF#p-G<To<(1E)s08_SHg-Z{Su>h?Jib$?GsE!bIP^N?q#
zN4EGeuIpB#t|ND`8%B?HEwCK509n`>3yyR7-N!Ni>yWXS3@!QRsQdO+)P<w$c<UXR
zrlaQnh}E#d1lL8)Q42T~r{EsciiA(J-X=8)>k&7Y<XS2P^+dHB&*Set5;{#zPqwlT
z`%JMi6H83x!?esYyg~eMnw2&9!*nZy$RGEnEAYj)T#NjU(d6rbrd^gY!^#9afjhA2
zOxIF*m`ofoi!R`P-x3l+V&`ltRk*Ngj%)hUc!c;dX5#+2ZV#9|&-LMT)FzFXZ@u4!
zLr~8LpP~-t0t?)SI%9p}UDye8QCGgmx4nY;B!z^Q=mcuhRbS{#!{NlcaVQ2XqUJaU
zHO@yJ-Q5<u7casD;)|$jf9)mK`$aVy_5IgTPfTr>x>>LpqjmmYC!r5kU1q&g>l9=h
z$|lqglwRTHbw|{}H4l5?_kL@wWND@aXQ8%0$SNzda4ZhQhp2s?u-Yxrn^9Zf87Aob
zk6PnuyaaW6okgwTJ?xHs*1Fv<9rb5;nRTuv$*9xs2=>6j@3|E&33X6zL>=50umu)e
z?`BDB96-DteSJv$K_V7=z3=*V4QgLq#Vyn<;sYy-@ze$@B{6A}^?uW(ZFV(#hN0Xa
zx5Z7bF{m{>ihBPeY=Q;1vI&tN{gL(l8y5Ew^Ir!`xouX0u|GD)8AxU22(Bki*lvYW
znB2$W_|qqDIzCFba+K>4JFR?-xA8iz++}4cPTKAEltO!~TqAD0*UDk6m|?yDxSY>u
z>=IYVD8Y;Ku?ROj+GoB0@jOS33xDb?jfIFS?Rzow%$?%ZYrc^@GIc_7YD(C+gL!4l
Z%dJe4`6j^}GzoUZOaFg)a;n|h`G0WaO~?QM

delta 6524
zcmYk=cX*Fi8^H1V9HSK!wFx055qm_f5HVwm5tJZ^QN&hiJT|FWO4=G#U4&Mws<uk!
zi<BBwZG&its;bvaTczIb{hZ$)?{($6KIcBqI{TboHeU<ca4jf3?^9m5h#V_!Bm(bX
ze+({Rqzz8PhIkO`<6TU|u#)b+C8*C`!DsQQQby`wTh#ZyfO`E6td2)91n*%bEK%Bc
z(wRiV(nex&9_ob*)DPakCKyu2NEz&hm2o1L$5*f<rekgV1{>ggtb`F|jchU^9WjRZ
zw{otaHOjk!4Jq##smq0BWQ5_tfLAb%xL~mH3z&c!r(rjIh#j$W1tY<jiu(Ls?1Y&Z
ziQyHE)WiW;5mQiGW-DsNPkJPJk*E;jUN8|uiC;r~!KbJNyp4k~w33l#I3L&HA*_Y*
zm0g!Dz_!Fk@c<SHHL_S^d=ulIF)|(RVk26{8(YQ57i7Fs)yOOy8D^vi7p|g~I5*ri
zdC6)<@{->OwdPR~Mqa?hxCS3%b6iv1NLM_C*RfI!BWJN-P4}K(P%D_HmXUpYU&2W2
zCgVH~#+9{=w8UGeEl{tHk=8gIV=xU{;0^4HHR`%1UVxgvD-hp8Eog;$M*84L)WLih
z^}V^6!1tv_eIs4SNWtEC4xhtX4UAO7C8&dH7e-?aw#2HDM%v+UY>)4w&Yt_IEfLqy
z4YHNko%lc?4tmzeV_Gs2qxil=Hg=<Z0=6Q48?`3C1`KP$py7ce)B-GTYGfQ9N1dk4
zo4JC_Lv4|xsIwt7%2g~5^}TOkY0M7fKR{3WDz>@nvsBa?UB!5;)xyOK0%l+o`A<i?
zmg$C7iKn49=_b?yok1PlWm>udB%xm4gW8hUP`flZhWS5;nhlOI(gP2-GIE;>#oHKp
z3G=meFI<KCp|jW+|G_F4+0Mw1*bnbw{q{zJFf7){O00+a;m=X0X)bEZ6z^c<A>V7&
z!80<SjOb2AHj?orULsEH;#RU&U5%s>Pev_JNH-%#Fb!wor0zxx&)vcwi0{N1*^Wo4
zO+K8`(@1`tff+b25O?im<O$;5ULcWxPm+-oh?8*zFP@6J66T9{HEA4hEb7v_1+}Ta
zMQz%$ecS@m1$CX6f-P|u_P{%6@~}krbrtv8_je0K26o_vo&(%y-H19XZlcyGD#5kH
zwSa2|vY=4F7WALal1qbKixo(81!;yY$sdQh0;Xdfynwnu6&}J8&iIp_B)-)fhq_H7
zYMAS*5lE}c0&I<Ek|;5j9^v+a^&{PA-;3I(g-5v-ibAc(1k{!D6V#Ttfx4Ged)`Q4
z9D+@C{*Nb-PR4dzNYe}$ZKMEkcCwo;H&B~6?>JYJIMlwIjXEe7p)M>tP)C0@9>?(U
zu8Z#D9O94(u1hzgwrHJ6thkIn$t0m4>^H?NjYBblco817G#&CM$<wGYUYTy>YivHl
zNFmHK%lNaX=xp`^;_<vxr}3sav@dZEmcgWXMuw6<n`UI9Nj7@AU{qab<UeH0MtwoM
z#YQHRKY59fqxc)@SlE-|783K4Tj|<hQ}Q>XwnQfCN@$iE=}EympvD`QyUi*G|K|NO
z8QJ}~K6MrIpJ(LcY9ka*`oF>^!-b1$jWF)ya;lNxyrAW4ZuGu~;lvNH6xTyvcY~_Q
zdbci&!dR|vLB^;2jtqF|$lQ*`Et}Y7G5ZZxSS;`+?K71`>=q+*iyV5(?Sl2*VHe~@
zJMk7C!gAUb?;6P=&e-Y(+pcX!))QYv9V7G77+l=<9d;nTu)|0)hQH5lO8z>mMZ9mP
zyMEatF@ua+>GUCP!+}^}m+QlksGHGF)TR#F?Uv5AsG~atwXZ)$J%X7%Zjd$(n1s4w
zuEy?|fiW1o*UcVpAPL=U_6N*Goh}XcxjkS4_9s4qT7W7ax)%&WZR$5sYknOo(t?fl
zyLlh~k&#v8r{Wr{cEA<jQ`9k0_+x*2_M|rnEzxGwg(MsGg#|xxecKls5iddAd=8`D
z{|H-S^rvorpO3n*WTI}rl@Ge-2BGensi^b+9P0DMKGXY{|2;|Q()luKQ+|!wcZCkQ
zX&4`H4!%f!8Xm%`husTvP@6vFbN5_4YKv}0T^F)Y&lM%Va7Vq-s0BTY?fJgs|I)4T
zT``P!F6s?iu^-+<{XpzjZkzT3o<Q9ND}3z+V=Jsd`~vFpZ=o(ozoE8B?Qe`E;TY6G
zcp5!Duj}O3rm2tG^kV|?0qjV87qx|29C4@MiP($yE7T8^J?hr}f!LCG6>3FJp?2wC
zsB3@aV{Qz^p?1l#W6b|<B)%m>ZwStC^Sd+Z3OE^c^ln0Z;2dfVOMmMM+#0n4v#=`e
zME&4dtcm}kK40Uwd*3kBimpJ-KXTl2n~pi*nz$zFbQ~Ipvrs=!>N_|1Vo?jS5JT{5
z)RxJ?cr1I;O{?*!2altuW8h!ZSrvK8IUdUs@9;?IC_aMP0)<Yynnd9<#6wW$`6AR3
z??;_hw@|0$+%x_$S}tHYrr(<HjhrO^gR^es^nNh1llUrbz;)-`QrzH2BOeoc$4Fcz
zvG6A&H*nO?Ms8w!raRxaJ<keBd=R^0<OTQP`S=}i7Iw#-7hT^<ma`e^!DTA0#cg;H
zqc0ix1s@^Ld6M;udqLf7BdfVE7oVplB`!0V(7WRHg2OrVA#sIYjeN;{?XS6Qwcu~A
z;LETBOYHRPG&%QudBey#?)&=>BNy@1O(XAN`hRIruJ^q~1sQ*ma@%bR<}T-QZm4$8
zeX!bnBln0G<{J4NU;NX^Ul{clgOC?A{M*QB;=~8;uo?M}`)TzRt|Y(3L)YXdP|uE|
zAGx1oxj3IV{a=2(db}v|vHQu@QLKE#h3Aa*OI+MqSx$Thf5$m_tbdRg!xnjn_z&EK
z@8`4rFR0G>t(+%*j9T;aPgr>i_daR;3iK^t{mrgikd<NNzg*CY_lQI;i4XB!AuFRO
z&~~=4GFY;R6$ZA{E^6g@uK!!iirzo!X)CN9GNQQqK<$!N63IV}I@lshS$P+);6Pkj
z+R6#Mj&IRL2g+EvfC=TTC-3s2X6%jKxFI{l$~LTD$;x;<k8fa?%GN&z{DHbO_X@RA
zljk<!G~$eBtiMpTsbc*>x)ODPx`-pNK~-0f^>~!{0oLL9ufjYlMM>NXw^A1KMOc3p
zgjBb}IFUj%th~kp4{KU~9avY(%3$InxC<j{TbY2Fs7q{@I#!0@Qq+RqL>(h5>RNdf
z6YE*ofe%nOwfDUG*8lmPg`bnLrGfP~nPHLi4RIFk#z76OY{sXbbv4<8k2P*&WsBO_
z$^hJlr8I8h#zF+1A<o~_N)Q$L8OLBwGrF2C@Om`2vWkpPqph^VE-_X{;w!DJ<i|&?
zt$zZ_+t$_SKF;QaYui~#=6Z?t*8h*k{8;Oc`tMK+K8U%Pf?2o}M|HH)g!}KK4!$~_
zt+dhe|0^W4FMjG`{drlSoAswx)9!At4Uc1NaD7-0Hz@aVvMfb>yqA^xyy!}A_x#WC
z)<4q)^|kVl{0^KjJ8@sT=d8ry>i*VWX)_17t_n%eE}*ChB<k|OTI_@0;03HW(9MR2
zID;1qA50C%&rWoMEO?03|6s^y)Xk>yQ0uSpU9lMPOZW_K2;?8eXyS+XEJh7ukZMy+
zBB4jABgo8?Vo8A#j<Ei}%@R;QumnfpKJ1GjBdx#BPs14E&u}qn$Er(E3taShD=o1j
z>U~Qw0*|9toy4Ccv;{&(TPcS<QMcJ-Ou*Ms_xZoD0yZCG{k6S6b|7AXA^0PP>U~%d
z%a67GKOCB(o*jE&dt8os|Jkw3e>N<+PlkTr*f@7%k@40)=XXTiJ}08??^{s|b^_Tv
z<N@lDt<wb8b*oX=k?R<TO((h*ScY1FZ?H3(NiM(ZB<6n|GM12`CI1L@-_Ar`IEqfT
z{*h@KYW_v6g2kt}E^3Tgz^OPLcc4}zY^wD)snJ-ExXuf%r4mt3RNL`;%=Jj<G|8A|
zWe@hAZe=bOc##j&GD|Us`1TAdsd#Rtm7(O1o8=08X0~gQTx>ypC>7E!OPph63Le5V
zY&h4o)Fn(L4xdLCaKD#ALP%_zZ>16!(iXU;&%lGkckv6{wb1PWlNY%@%tCF_@Ws~u
zZ8!w=e2|Vhm>;8lD0Yb(D{0t?_yX$67m?x@)RROKdgCF~rmOstb2yGB-i{-&^ipb$
zb5P?esH3~fGWX)e7*Bi#b?vXd-1@($Jk<ARp`MsxR=8QP5nJf|&my4@R$OWQQ|lCD
z9LfgN4-{JM=5;&N!8H$i<LQ9a*03}iem$eMK*(Av^Dr3)<89PF@3GD;(Hl`)-~q<#
z{I8$tYMg>Py-uLk@CNq4-mkjdZ!7B0@FK6dnk1l3zXRA4^Stg>xIU<Zay{zcK84NE
ztaq~{8V3=lqSueapCn>1ZiDOFHK=`+iCd^y_(m(s@Yp6RPhp?U*8fd6{7qN02N=%%
zZMV4TH5RpoAEVxX2OFb#n@x!Prtet)zhQ0PVgBo2DfX_F%J>{c;Y_5masby8_t<8I
zQ<&VuLYTANO~*SstbE4x@b|53#jAK3SAJk+1y0)O_7t0L<q~m&T~<E961%PcAD5H6
z8@a^KWEAGbSMW)0xU<Ll|Ks@wHO{lwSqSqJm)uhz{M3!08DkQYM@&f^ku+=n)#4_&
hRo+Im>jtGJ$D82Aq48#aXuR!O?Ei0?Il{i(`G3kHPC)<w

diff --git a/httplint/translations/fr/LC_MESSAGES/messages.po b/httplint/translations/fr/LC_MESSAGES/messages.po
index 95924fb..662bde1 100644
--- a/httplint/translations/fr/LC_MESSAGES/messages.po
+++ b/httplint/translations/fr/LC_MESSAGES/messages.po
@@ -2443,9 +2443,9 @@ msgstr ""
 "Consultez [sa définition](%(ref_uri)s) pour plus d'informations."
 
 #: httplint/field/parsers/accept_language.py:68
-#, python-brace-format
-msgid "The q value on '{language}' is invalid."
-msgstr "La valeur q sur '{language}' est invalide."
+#, python-format
+msgid "The q value on '%(language)s' is invalid."
+msgstr "La valeur q sur '%(language)s' est invalide."
 
 #: httplint/field/parsers/accept_language.py:76
 msgid "The Accept-Language header isn't valid."
diff --git a/httplint/translations/ja/LC_MESSAGES/messages.mo b/httplint/translations/ja/LC_MESSAGES/messages.mo
index f61319f12a558a49a8c32b5dcf48173f5e8b94c6..b2f8ae7b7fa7a175480332068a98f9f5c03c83da 100644
GIT binary patch
delta 6528
zcmY+|cVLg#{=o6iIaW(uHIgVbq9PGOh{h<1kRtYIBPxi5CZ$G=8r6Pn7cE*fTGwcm
zG^w8*lv|^yUAMK>tWc};nxVmcf1dOG=l9p^`J88+@j2%_-|x|9#ZEpewz}XyeAPu{
ze`zD?J?xGZ%NU8r(fBHE!@77Mdt+FDyKWlleOE9VUko%-2U}t&jzT^E6^7#htb`A+
zG6n`2pS0zmevpw?I1%;4A=DS%!iE@J)<{|Gj=?w#%i~-Oz_nNl_hJ-2#L8IXB_oTB
zNL!2}zERFqG@`t#SfBDfBaxh#K|wX#=JyJAA};>2@haF0HC}-o@F}*&_7#l0j9;MM
zzX99eS*(ZED;lYZJ+UHAN9~zx)Q11+<KPVrDphh17=~4d7oa|1D{2MrVhUERY~(eZ
zgmZBRMqpB~8?wpxI`IMg9!pj+GDTzj3cI{wWE9@V`t*!%P*o#8Qji&9<U{ON%}5DO
zTt%&MUa0HxpfDo^DQ}3{@|fyIM&MMOjV9bk6P$zX@d#eWDm9E8!{RmFb1tDauuz1N
z9NsTs9IU0_9H!u>wTv{yJE%PnRoh5&%)mHYfiZXslQ1IEb@61>@^$|B4r)a!)iKf)
z`=KWDkEqYh!ydd}BI+7xN5OP_6Hnn=SUbu{7*0b?s&yEPe_&G#t!JbKW?)NPg*tm4
zqV`0WS6z~QiXDl!_~RF%jXa|#qp>mXm*@sA+lOK^;^n9<x#l;lAxXmx>8KT$*~rKs
zJd8R`V_$O>nTXmW2T*52)yA%2T~MF<6$W9hzdRp(I##WlxH0<zwMADk5o^b|c(UI^
z*qHJ%v94!2VF>YP)Gl3uTA^d8*<G%wt3W#H`5e@qypB4g72}xyy=Yl#oRQA>V>2WF
z<wQWdk!e`ub@#x}P+xQc8{iYHiqS2MoW$;U7wfe&QWV2l8JUSus4w1$I!*IXdnO>k
zNIvh2Pw*L;KtWs^BMT|mjTea1+PRf1zP*ub;`dQ26x_kcUR;4=aCk=}hWqZ|apHTO
zjC_X&XiXs;(Zxt%{16Y|M1S1z4I@Q}yZZbGz3@2-(*5yZ{3j0{iJF`y(Ir_2)Rl6c
z-wXIQarLe)$!4Lp_#$do2PV0pXpNfG^KfGUDvYy;ec8!IR&wxK4>$d;V=8f*o^D}U
ziI0d2Fisco37*FDDMs#5!Ogwh3s<GNy&)I1!Y%r^+3-2W5&z}4ZeKUch9UXull>g9
z+Df5xw>Af7IFoQZ<ug%pq*OmvJRH*BElkf3FfxP(hoSBf3s95u7`Dbz16@z`z&PUN
zs6BHPOJRjUx}-DzB00EB!FcRbkoi2=joG1LZmm9wI<4|iU-ag1cYY>vxy(g<;R4iY
zb_H)>_4i#v0!A2_N8A?Y(12Y0nRxUla*q6ygwgJSe|+F-cndYlUm3&DFjmR9fa{8l
zHS!Z?jx$omiVU1!gd&+R$;c8cIK?ILG7?8OtLD>K+9{ud-7x86m$Yj?p+dy9XVCv2
zap9hsWGfGBF^kQD6Ky{;@(JZfXEVl_`neIkt}E5omFzfb9Ljj;zP}u`>(8RDgynep
zdY+exx?2W)Y2;H($F-C{!XO&9Vj=VYF)!Rj^-FSM+t)^>;xFGA`IGYQnVKQ=P?nK&
z+=sd{*2!j<<NRQZAl~pDEyP^Z>tj~%Le6i+sn~I)>zUK5m<_}u*O08ZdoBG>Z%XKT
zb}`J#F*2VAG}-7rERJJY%5P!=Dpu%w)^y^SEp89U__vY8T%UzqFyRM2IJj;h_9Je*
z-Bl<Pw^AOu!%fR8JIOW9m-Fp1GK>Rt2HwNTIAOQ@kSNN4_aaWjSloa*y&hmAjNjwt
zw+|DD4`O``-0RM_$2j7tn2ZNddn#<7k$2HIo`ZM}ZlkXG_4d1LpN<*Cxi|pZ9q{jB
zsO2vl)a{cM5L598hR`$7hur<iKO5Oic@7@N4-UKaq|JZa^-GY3`J})vu4ZYd`}20}
zjSo;ak)&T;QZ2*RiT^}R!l)yzB@?kZ@j2{?RgSuz8;3fJ4q*xwKIVEN9rgY!Oww$5
z%t0Lrx*Rvs7bjr~-avgo+Y|1_Nw|V|4?e|VC*6yOo^lo2h?)aWP`@KOopvqG#Qwzj
zs2?I3zqyKT$5`GkmCm>q^+KIa^HIC@FzN~yan_Cf64V~JfJs>GoZA(BsAInjb*yir
zR-n##cij}!WW0bn9ot-RyWj%!X;SUyK==Kk7hQ67!p_8tQIqBl>eAWach|y+s4Lz{
zfBecNcmD{~9NLPJ7?A5$%ocvfqTaU|bs87C%={nBLHuPmmN}@qR*5UFCCyQ@eG+Qd
z9zm^0=pXJu$*5zQiFGj#bs?&8)!m<gnnT$bjt{XtR=MVS^u24$f9=vW6zD8?h?}wT
zb=RVYs4tAU;aWBnwFUdJDhAwiL(m8{cT#W!{)9S|F|1;moWoI*`+L+C@-~KHecvrt
zqZF)7!78kT=TTeq40VX=-gXrlg1SI`kNUCM`7a|s;7SZ<`n~&KBgJsu9ljqZUwYS_
zuX&FJi1<2c1GDbC4-#LW2X2jzd}!o1PK4yKz48F_$bCXpW_{Kdu0~z468?5SC{|(-
zu8Yn$@($%OPuwi}7B!bnqxNj@Q};!bj!TG3KXXaB9vM=f6c_7_ZEwuxf*fS6kQ8IR
z%_y>fmHEV*3R>xkoeEp;gCwhnm1SJN^f@apQJ(O;l}#+MX+^E{BYwHKm1;QUA6A}m
z-O3VH&ZsY1$)bEZ8_r?!PhKr;r7s1A0<7HOg8qS4))My&vXX!$U$RmLyO*=l69<>K
zvI-BsY`xvlSJ8SyFszdGev;L#Y`v9lAMWRQGlQ+{#J8$gIe`^lvEEQTz-aPMa;jSI
z>-T1e^*$0~L#<S$yjYm^KD8pNTW?5;g<EeM4X<J42@m==Zo|zrt!%*25mx@dI<>6#
zHT+U-D~pJWM_TvMij0;FuVZBr<wK&Z_&QLK$APZVtzM;zh|5M>c@OW`x57L4;bCPe
z=V!lWr5WWF8e3^jc}f#2J1GAq)_Nb4Z#T7)OZ*V^oAOMY^^$OUGb_(?Um0$SEI<#$
zTj`G-T3Vlw;IgH)^}b@W+ge%3jV0Sz`2bg;c43Y7bU8l2FK~GWD?PZcX-DgQ=P&AH
zy@je)XX~ve)3G1d<>QB#-o<*~50_DsyxkjCT5*5%H+@zHaWEv&N+SN=)k<w_*v(1-
zTKLXeR@QODfMn|}oxwe<j3#~$ci~MOj%#|7oEX~6dcTH!s6ARb#U<w@{1@?)-d6VD
zm#NlUqEmfoR<2O62_NC&KJJBI^d$+2+r90QOVVA^Y(=fWhZ$C?P|-Zp2bb^XdTbL;
zBd*uq$~oMIrMPa<yH;A`ngMP$<qxz{iy`pM8El2AEW3tUS&Z9<)5VxF!b&}SJd&Qk
z+N0eNM19~YcnKF#K5q<T$%~>ta?|l^)MRW$&#uO2xD;29welU;zcJ3r`@}NAn^is;
z!9fd7d_2)g7#^AAYMMXUN;%?||8zr?%7>xO|6iwBiNWxXUCZA2gsvnWGlOK)^E0i)
zWA{(3Ou!|dQ9-Qwx%GYl&6;DqFP|IOM)&`uxq3hrV>14Qh8x<=vvLSK%(udZCKbN4
z-hVmfU)K91tA#qoGf=-1dM@O}I1hvH3|7Q@sGCsfMJ~xxuodwh9K`$O#l_b91{{l<
zNxJ)}6<YnZ^}cTN{e~}PL83ef)9`ETjD^2($=MC(5@+Ez*mRkD@nwu9uDjfNzYB(7
z9Puvn=~`Vl(|X%xJJjuWn%}M1koXSj8ej8U<}c1g-Np7`3YN%X*5F_a#U+0C`uz)=
zQC>FNHLN@8b277;|C+rgDR>))f9Ja94C)ObD_op`jfvNwR_GRLg~I-iJpw;NordLB
zS{aA4a6Fb;#S)8iP`msf>NE{l?e?4jtI19syB!pS<73ntLe|hVn2d>d2K9W@T33Od
zsO9rfKTvMtTx_z=4areFPaMk6phj3E$CWq3zQl9z8vgC$K*#Fx1}nF4+D0oAaTHsb
zE}2j9G4XRG#!M`*g%yqR*{I(KC4X=gibvh`KEhFyU)#!b#<Xo#j_7^cnPqqawZ|&%
zAQ!max156t9OV7z#wKu=OOjL+%GcvgZphi~7M@W*Ss6%t5A{c8+8*ou9>~Go`ry6R
z`#2qopAeryO}_Mf?4Fp3I@E>tll{8?58y!8`m^{Jc01r6ydJeD3LkVWpN?Ad@`qgc
zQq&v?``IO7f7Bc}h&))D9d@oooh?=V<2I?usP75-Mek>jhj8!_1v%Ih>-|d03y_Sc
zEqec$n?@&bJaNczx5R#n`ogFaR<6@iSvZdP^HXly4Lt3VGzYcCm40(h#@C7e#Bsb|
zqRzO5CkG>lOPzIH*Azz*|LnKrIrrl2s6El<ysN+w)TBzd;99l{TM`$&=w8$rQ;6rI
zHuMo{Lq`5il8@owZw~ktlaZIK_h<A$Od<}>wNix67>%Jg{)&|*v^4vw`&7Gn&AoW`
zb(UnVe}p}-!3{Swb1|6fPhlhc`=<5&4U4{I<to=TxyAhN#zD2)Bq5GPjThlAUYLh#
zh<~_4ONa;Eby=Hp->qOp9$LA``2^gDHS%}?FS?Igi1Qy=nM}Otv6VoK&9_nr6Q8(>
zBtNb14$_`lsmzIf_yRXhe`ciw&iDJR-%Wn^u6sW8mzytyguUB)VEXXh>3ypY-I!b2
k1U4(!pjKqjdE<_lz$s-C&Bii`_HNt%e_6?;c4zYc00If9rvLx|

delta 6516
zcmYk=dwkDj8^H1FzNdsDXF1Jeo8vZ`ggI<s4k5BRJj^B=A*T#sewkDA!g5YAm5Js!
zL<%Y7^a!DZ6d|W13{C9$T;Kcm$Me_wd)?pDeYo!X{{DWa3W}X5D7K+cabKv294u|5
z7T(7HVC6DKTH#o1h&!+W-oYdcDeJC#7xli2_#zfBXQV#1Mt$xW)bq=*HXgu0yo=Sa
zOnKvzS2$=`-bh<aM?G-}^@TUEF$PvJQUQBn5RSx3I3LU61`NaR@CD4nYFO(zBUwhI
zJw_8>t>`LRr;@8!ze+wM5uBJwK?v^fdl9=37prW%3id&bbFef1i|z51Dn=^fBGmgg
zV+TBgkr-OlNL}oWRWSp#XI7y${HTwEZX8qzbPpJb)rl9QK43d)1^>oGtX|DXQ=E(o
z@oTJy@j-6LreJI01Go)KR5vnRWBeGqJa6P}yn~JC8Q+^VjC@PMieMvYI55OW2~J!_
zt?|83*X3nv8Yx71Bh;2h)iN>$r{g><z-BnFwvkSF46k9eIz~=nvAXU#=TRFNP|wKc
zyk9~%*hs-yOvKDEBQ5b3Y7f*8H}W#3U^M1nbG(5)uug>Q;wh-*x&HVTYDKHmH_{yk
zq9*e$)aTyAKD=M*G%(VUf((qqpRgC!d%;Led>1vTa<K(o!j>2uX`~INU@WdhojrM|
zJ<+A1OR`LSm3W&!F8ZR80(vqMqj<kWzT~of1jZ0&qqgJ^zafoD8g58Nt-!1%Muy>G
z)M?tRsjEmjYL6U1oekBaT*JDcK6e?G#|!@QeDvv9wQc6cY!PaUE@M2_YwqGHeh*<3
z<)vD<p6QIi#A8vrGz+yt$5FGpLQ7YHWYqJUP<!$U>X25BX8!l3Wr@*7y5g=FBY$(E
zbSon>@QK#$f$yQd=p?>`53vSDwlQ)Fd*U5z5No6;hO{-3iS<!m{0-_fy@%Q}rP~?#
zm-ofA^BI{;L5mJXmQt`Ae<M!n=vK0rPDXNwN1;|Iu(Of<n1d7Wtyhg0?z@FQ65sA(
zWHlb3HBVsbYet^L@puT+{c)#mMhX+h`TPfc@F@zC{qazImj{nVP0oTimt-B|-AcK@
z?>S82d}w!<WV2CQ{3~i#m+9e#qAhAtFTkw<R2bhQ_O0q|WE}^M`?%?M1^W@VOK=O*
z8vKXYFiz+3A)dxx5{=xYf?p)L7p{HX?F|=DE8METn+<a@n)s&Qh-5d*Mk4v^ll>g9
z+DgCxw>Ae3bjD*k<+D(8<k>;2csP8pTbK&JX=Ef14nf@`7NaKTacqyz4s|{CAB-l>
zM(vr)SPCl*(<Pnx7skOQ3f{r~g_zI7-IyI3<<{ySP^VQs>Wf}Wb?0Xxm&<(A7cNGf
zW*6}~hK_a(DLux>BI5SAfCgN^?}^90P0o>j5<AX4@X~l!!yBks9yEcWVXS)Lhg?_W
z9V6f2ib+PwSdk%<jZh?$rW*MO?R1yK%SjyFtfFVIv{OD0dt&@dm$VyZQ6b`bv+4hd
zT(~!rY~_Ki-ea@iMEki$W>NmbJjNIk=Nr-M;;6o^WG7JLV8%oD{cO~(KZCjwR^aKI
zd0rywZdvvNBXckrH&T8d%hRx&rOf|)UidB5FUg4=pBTx&BiTm&q`c=!%@BI%Gb00V
zAL_~&p2IH3`Jq^kc=Kvnh!;?=k6ObEIlmn<u+uu%GpE)w8;D2elB~FUBmGZrO7LcO
zF<kk%k@tB()2;5q;sjQp{2IPQ#R9gmrV~ef<@SJ-?M9Yy{YrcdV|Vbu!F3<vAmS#w
zT!mKPPRfJ7anthRZgP$D6?}V)jN%{-XX9<0hLiTX4~eH3@V>;|umx^LonCjb3C8Sm
z^E(aO5g)`xSZ2RF{|ZJEPsiSP0JWz=4j37NzIQli#lfGbYkq@+F55G3An^r!6FVI8
z?_#LsMgObYCo3TK!($js&qN+}_xJkV$X?1f;SqfMh+9wE9d*}dAr141Ip%7Xgt|ZP
z#3a0nx{1X9;F4-NwkE!gnuPU_yOyNm%fx3f0jr&GJ?BH6MTamE3!QX5k&Jr(O6;N8
z@_>W-6m<E~NHR{wM7)anfc8JR8z<u$;=TA7N1k#o9`UoQ*ypG@@DTMoqVs9j;uScU
zI3M*xB;|~&=uT|G`=!cR_o6<i(`g}U*B(Y);p+V2#y$(R2hL#+tZ~lmifO20zZ`X}
z|3s}o_^<A|si?_#4s|-V`_1iwi_xb^wVwms_n$iNlB+XzC0>e}G`CQf&W;yc3)4|o
zydV8>(C_a4RMZ^WjuBY;qFXUr`JIS*-xsLUIN%cVe>ev*m)uxxLfy5Vx$IgJjhgL~
zQM>jSYDI$oa1ZK*I+iQ20p3Ghh-zJN_otxd&?>BrdDsc7U3EP=>?-qLyL3GTIt%jf
zOKft@wI~nug;CdC%SNEKU_aKt(l^`?yo8!N2{;D#pbljetC%L|Td2vs6?KLD6Ki5a
z-%VGe1PrHOEe7H*s4aSgIz$nFxe5(OU7)t2er&#a%g7E~gSDA{gZ?&B3>Vzy`+@S0
z@3`}|@3H_9UqNl)$~^Z$;_G+Mt?^;^jhx}c^AFfwc|ZYX5?5t?))%frU9n;xx*rs4
zurSv}{%hn7%A+2+S@bDtE}cT{*}%u{izpdCA}(3rl5!(5q&_Jo)*IWtn8O8|khMY*
zjP*97umCIX6K^SGr8{<h(s~~xD+^m$!Sx?MW#u`_V~be%f+aSosFgv)6`!#Zf>VoI
zDd4&_C9IrPpSAKC<r!=^N60^Up|q7`3IfVnxy=P{l(VvtxOaIg?XbjiR?1+{ik3>T
z=~S|^9uHTx-tL%I)p|oPGSGTI$s(#*Z{^#E2YKGCAS=7EM|CSdVddwoHxzgAMe<KJ
z)v(^z@3mm-eIzyuwNiufA~mh|sTEesdP7pAw)M8rnsux^;z3{H*Z4(UD_d}EJu81;
zc$oFRhRcUr$s#TmVckb7GFtLheJfKbAO3<BUuO#LaiD8-n}&1|ak&?*jKDjMtndzg
zcv#8c{G6s%VkoZ^W#whc6Pj81hVoBZSnp%9e@iPDiStmuDNjdRF9|bZtQ6tCQrr{~
zKo7LCG8j9?TAz^MvaP-KzG7FsVr3~emgs0@Jg!CU!dji^a=eR+F}t&sKHS&*RqG|`
zk}lR;sOomL-g=UOgSajq(=hop>wQ1`j+*2hx>;$<{h@I_E5kS#9&aTcf9q}~92@nt
z5<m+F^s*$R$l%`ATRH>#SQ$q=4ENwQOvUvHBqs*<wcfAcG}Im~ndp-9JT4)Am}F%i
zzTeM!OLU^|bt{)C*n<Dy(*Ev+i;_t~;tnY;xgMj=-|Yij1;!7wQk{z4Lw)dbgIteo
z!5PF223t9YJFpbjEg52^J+6P#&8GaJR>Bwp-@M^gn9B0)TUM6g&Q!V>6UJDH#0O*P
z39L8H4MF|!u7c+=i}D2%7)xFhInhnWk5H4b4L!R7AK`Lb_l}j-T;Fw)mC?kH)4f^c
zlhnyp+HhjV6e~6H*i={3{ApGy61RTW4N)Q=hC2U`&al!PYtD2n8!(HmBpx@LWYhDR
zR$5`tIaVfP)?6xx)#qF97trhl*8B3giXC+Sk6)+<WHI)}n`pS9!y+q(vE%zz*wCcX
z2iE&9r{F{DeUjB(;>LI;>UTo#rMwsyV0k=^Rq;0JCR8%ZC3yn2CEkm}c)t{1X1#B~
ziTEW+cL%jX>po%nVLs|tZpd;LB<zN-V-|Kro9&V_4i^%yz-)|K;a+?mTM&nRYQ5hD
zLou3o7y5Lqwkxf-ZMH+*ey92U5*riWL|x-+u44Y;T-04`Hzs1S&zLnh1VeF&-#vbB
zU<~DDa$Li@qdsSO4)b5L_XGtgIAXQynp3DZ1g&v#e~cnti&~*;s1>TQmOTPzqfWze
z>#R(|nV62n*R#ap9Mmq~k2+0DZg6|f8ym<@9lISA)W&<LHw5L<HP{2=@f7O$@Qtnl
zy->^Nqkf=V$A#E<lN*ww_$%@A{0!31^nlM@d2>uAo`YBMzK;VPtMgl|+{9^HtxUmG
zwlZBZ^D&>e5Q&kA1(-&8=2zDHK6qw_t58eSU2hz|&2^V{GM%yS*H(_}eW*iye3$F7
zir<h6T<`mYgDM={{nm|5sXZ=95>P1LfV;UdcduJ`Qopk@l=v3vkIcUNtoM5$7n6u9
z?zi5@=>(ibd=fSJUO&L@iOW%k+8!kPb^m{Z16}KX#$FhA$US%iYERhzx|UBz9qaOk
zUHLN99I5fWOTq!DIj|pjurxp7T!%VasvdQlR66Q=N*~kv8RVfHOr#(eTVliyv^;=h
zL~YT?lWrQFz;xoEAKen0jrzjypR8P?r&i!3;`e@b+it1TE=hAyTU_akGaXwKU&Tqh
zU&7D2g(nwvo)`bcbzKyWB|hl)<#X=E+fjQW_E%SdBdAH$`Zw3I)fh|s<azg^PMAnM
zAGM)*s0|r)fh3>6!F>++7L!rGTkp^4{n&%J%0(-M>5S1BiW4teX+}#wz2ZLAE?#vn
z&b-Ew%=LNL2P3b$p_z+8Tz?Xq;Qbrc`!}q?O)FQpuJKLge@_mo|3wnw1l0Hg+`|j+
zVlMHv+q8su@Ew=6xp{5{3%GCPJm*{E0StY>3wY7r_!aSkf2>R+-kfix95(&e$`jc2
zk*i3L$Bo=U-^W&}aUunu=Ems-R!ZP}zuA5_``xptNa(Q}MaK_G8af~~X+Uz?*2|?$
axfs)E`lC3r^--LCy5s+!EW6z9?)^VUnx~Zj

diff --git a/httplint/translations/ja/LC_MESSAGES/messages.po b/httplint/translations/ja/LC_MESSAGES/messages.po
index af0b3b9..0afc2a6 100644
--- a/httplint/translations/ja/LC_MESSAGES/messages.po
+++ b/httplint/translations/ja/LC_MESSAGES/messages.po
@@ -2148,9 +2148,9 @@ msgstr ""
 "詳細情報については [その定義](%(ref_uri)s) を参照してください。"
 
 #: httplint/field/parsers/accept_language.py:68
-#, python-brace-format
-msgid "The q value on '{language}' is invalid."
-msgstr "The q値が '{language}' で無効です。"
+#, python-format
+msgid "The q value on '%(language)s' is invalid."
+msgstr "The q値が '%(language)s' で無効です。"
 
 #: httplint/field/parsers/accept_language.py:76
 msgid "The Accept-Language header isn't valid."
diff --git a/httplint/translations/messages.pot b/httplint/translations/messages.pot
index d5e3c71..92dc0d6 100644
--- a/httplint/translations/messages.pot
+++ b/httplint/translations/messages.pot
@@ -1786,8 +1786,8 @@ msgid ""
 msgstr ""
 
 #: httplint/field/parsers/accept_language.py:68
-#, python-brace-format
-msgid "The q value on '{language}' is invalid."
+#, python-format
+msgid "The q value on '%(language)s' is invalid."
 msgstr ""
 
 #: httplint/field/parsers/accept_language.py:76
diff --git a/httplint/translations/zh/LC_MESSAGES/messages.mo b/httplint/translations/zh/LC_MESSAGES/messages.mo
index 2a1fc91fc964b17e2461ce347ac60013dd430829..0ba3157c89eea645c794d575b9b6028c2d0abe81 100644
GIT binary patch
delta 6516
zcmY+|d4SH<8o=@AoW`0pX2?1t!^~jFFvdDYW8Wi;b!Zv1Aj`y!_bSG<glr`xRIWrW
zl0ueoRibOl7AZoq@402U-{<$d|J=Vm=Q+Ra?B~4izD)%VZYuDvh$5kQ5&5o!6ZIzc
z!U`pwq~jQ@i(9ZZ-opME7isrRL4EElCS$QECy!%Gtcs&iuP?>~+=UhKHb!GqDHoD<
zB<huN(h4V_UicpMgO{;B#*}ta8hc?3j=-`w4<m66CgQi4gnwW(R(sURLMPG=(}*vW
zv4YkpYXy6zY{*G1E=(t*3T_E|7CRFcF6V**_Ct+VU`M=<ZLmXmC*^QH>hqstTl@*@
zV0;B9)v+&Dz^SM$vmCYJ`$HtUlBihGUN8bH5idY}!DiF~-oQ+(9POkbPQ-b*4QpVJ
z80)eeY)-rjzr^B|oJ`Uf7h{*loQ%d>SdW$o4XNxTmyCbLIvI<Dt2imjg>$GSzEjnj
zyi}Z%2=eQr*1So)lWd%fv(Y6uX^eBR10KNhSgD$mgIKt_z2{fd3g)TdWF6m^I1+2f
zIDwh?W}=g(cpbF`l4?460taFmuD~XE8GB%jTGqrlsQGKd@paUKR(#w^cN~m5m~&Cz
zdk6dQeW_8~NqaJ;;!}7Odt%KbCvi9hbx^IvRQwH_V%0iMTHruziK|d&&mX8Q(WR~p
zvNy34@y2jmDA~yaS~3|M@qI~7vC%#pn-MQXt;z3U<LWbLcpwY405cjm8G?IIr)g?K
zE64=Y7TJY58!9)ligiJK?_w;4r^ESoF{FLfrm^+eeAF79!){o!iN!f#zsE-8mrS*m
z>5Q?&V^EuP5o&=BqK@t|O|1Y~sMpt_w&Z!#F0GKp{O?E22BbN85_6k5xyFUabSG0V
zUvqomEYuGj#uU7Vl`*-6lOxy*Z(yC4P6}dND<?BB3H8I<QK#u0)Ru{C?c^@sOK%-=
z@;Vu5ZJoSF#t!_2`04hxlBIWWvYdDnYJp-pI{6k?;Hx;YlM}~t*YObX&CX6f!CllQ
z4`z39k{8F~E}RgKJ9TxEkGOj%oal%7$;b-FL-8NH_!ZQp)pfJ=Ath`-)ajXnI;uZH
zU1*MBCCuO5TBsW8lH3Wk=C5It7g>$Ni9_FJ*l2Im)7I#>uqqdF!|{34g(k9>lQ(e%
zzJX18Qy>bs8?}jV^sx`b^|iP=>W8PH?g5)I0nee1ffDrl4xRrkNoZdc&a^fDJ$!`t
zbJRZFi8>~}>hGjDA6zwn1&Vmv(>56QVGMDRXRJkPp?;_%YW^71559}q0(()r<N?O%
z{LlNWlO<%-#Dz4?e$*R=4RlfnU%>`A5w&HuqFz6TTF@(~P45TUhihUEaZfCbC$S&?
ziJl7d9PH#Z;y%wixux^}7ZUoyLoYZfgFl76gO5|75--{yYd(bgctOjdPR3w|VNUjO
z|IU}4T*n2&o&1Q?N7$Y)Xe48S``*IC<Zl>dyX>rNCqEM(!;r3Y8((2x=EkVe*5t{&
z{aNx8{$_nY6LlM|`l>A?{ZZo&QJeY%>ULaUtbI5Zck{k3s4W)FEYlWfh5sUd8RlZf
zc;<gBiE^(yVO&VF2~HN_;)(Q`#*=i7X8QfZR=yul*MX9goovSjs2{kG+C^2SSi$;Z
zB+oCvLb!UWjh)TYoczvxd*5(Ug!~QDDM@J(J7+kliKk}T2OpVbeLoa+zK=y_jI@|-
z@xnPa&9dg&<}w9!kex!xE>ZJr+P?diod*u!FXUHz+orL+V+&c;5Q)A#n2EXxZ9!c+
z3oo#m^hDj1=Abt9dDIm!@?EQW2h^o>6xPNKsH6N6R>N}d+4-Rr>LxTAJK%Sy-wQpu
z&>qM_J!s5Bt;si-hJT^<b>sJ~<k_enT8Mi8KGXtv`b`I6L)5NFT<qj69E20mEwTJb
zsC!5*@?1zBSVB@hu=zR+wMMg1YjPNMdgcAl3YLUgpe)ptaWU!&cm(yuMLx2cw?$om
zvatq!jFs>(>KOVHgZUr5)J~<XQEM^?b^Bd{kKxI%dH!ifwRoIN{y5Z?FaI*z4I85t
z^f}a~pN-mOTTm->K5XL0c7%Hw6LtQ7N<v5RPpG?Ep5-=A6HxnTIBE^HVGF#1+C|Bq
zSeFb&t<jsP&#%XNcsy*$6&ANcZLtYh5jSE;o8%Y?eZhUy7gt_sAMAm;pXZ?7w+r>f
zmr=(+l~1itGf-bR2em6c!x%gtw$Lhz6H)hqPFMxUtYZE*C$X4}n)n-*!BVUedSmUd
zy-`1$gE}TQhx0FCG;yibW(w-An1Nd0S5UiR0cux%gW4q*P>*&|YeLrascW2+CnF1=
z!-=RbxQP0KqHC?D4N+@23L|j^md0GvmO6&oGSQ#ehq|B^cpU0|D^cI~HAdm}5D6X4
z1=iVxCr~d8L0wXFP+MjR>WlW{2y~x^=RHm!-hkg=>Ut;dV7@PG9a(|{h_B#KeDX^t
zBXK*9#ZdhXc79)vqsVBx(boK2)P*Tylanm`0(BHee`O2EGx!PdT5N;;Hd_UjqgLn;
zY7-aRVu#iGIE(mW%)mxl!}EWhC1ek3iSloAQj(=I2X)_HkZZoN-N_!}(7&y~9e3E$
z`zwAxe#5Vw%;&kE@gni)Z=Ec|=XN@ojzzz7@**z86If^$r(wpQTp)3UjEBB=vH)*j
zd0sT*KkQb-EB8405c}?RvQ6*X$N3$1pf>f6{Z^371Gaa3f!X9o{a|Or={S)1;e&R9
z8iAR_c@H^R$@e9Tgw`zbu$A--t|A_B#K}uo`KT?WvvDwSwIA)sHV^v|UqkKN&d2Px
zUT)Yn$DIr!e?RJ&Y4j6=n2N2&?!*^QF#p$+NdMWI^e)~fp81QDy*T3}zifCQ^OXI<
zS@vu2n@z4_J@S{HwzJ@gGq%gUaMsCqp8Eo|$s7D;V`C?NNnG-r6S`migLym$mGiWJ
z4Kn6jwEaEzk~N{fY`b12j^n}4QCq6+6@Dk+Iy{T{uR3`FuV4)JzGh4EIBZJ17JJ}L
z?1b&FJDGzE@hB$U2st@NqVP?dKDRNKc=IhMf1_aIZ`<g-_lM2r7w_0?cpGPMpZwRB
z>Y1pU&r#H-jr!BcTzm-^VZ>ifUdE4bDwe)$)A_>?iFITgKplLO@7V$rd*AwW8V)D_
z9=?Xd9yn=@H*q&M5g%+u4?7>Mq;s(Y`NwcECU_ql+jrw<#C;#~!BMY7gcpXBgp%lp
zRwN4N^HLDI<@Zt+`xo%?9S@8x=w&6gde{g1`EBe*JiU;Ydw2$QzW-X-2Q@5T#LM%<
zGsE6R9sL7~`rz=o4|@|IDdweu_G;bYKKO&6>mxqs>x2?MIK_U9T7U^9y%eB89V314
zQ!9g?FFH7TmGZI`tC#k20WYBr-lLCt`5KRuu>!td*2{6?_saQTa~o6M2fv0t#dsZ6
z*GMFAL)i*G*!NqYE*ujvf)6KF^imm<qLKU_F+SKv$Kq(>&oBlPE9nc_-LM#r!BRLC
z%i#y8-`R?~-Cw{uI;u-N=7Y7p73T1vY}Eb!eq|s0=~O+|K0FSeBL4%_CjT$SVNw+z
zY~Q_cDDi8kqy7eJf!kHJ4-P|p?|jq(eS@KjBu<mi8brkTU{|Yxy7@FhJrDH2S~x9y
z{VUWO96){HU*Y`tcpvO?sTirx;UoAGYC*=Mo(-3xzW-#r56J*(e2<JKWMo$J!4c|x
z)EjoA7VI2Wz=G8+KOU2bn`0w<72DvKn2HfKEKWy#eg^9Et5GYo7xioykr?v9ew>_W
zHx58OC``aExC}G#E^2}L)U+CoMs508s3)h5n29G*r)RTTKKN5>8df7t<#$|dd>-rJ
zLR^H0LL`Qf$gb^!h2eM91IWlEFPrc<zK!$i_+VkFUDwNP;wh*Hit)+TwC~_$;w_kh
zpVsri%J>^jBJP^vgB9^OW)PRJ?`0>3vPmo_k=DRobP=_L#T$Bg7hB^JJd0Ye$&Gw)
z2)&Bh_w^cElRk^u74uQ^4`Ex3Xu>GRPN-vMBI;OLiQFHO6C||H%BI>4y~4hZdN%w7
zwXd(CzA&z-IRdqBx1zrI6l&iVOf#FHzV~I+f~~=>cqN>l-b}kRL|>Cg=fWb?L2?Gy
zGbkgT@WEMcQ@Tx;>!<}N+T5mJuds7bx79tUA1c_=2Y=7CL@m&I)E2pbTA@c<*&y$S
zNqk?Xk<j_P6?NMDiTa^pt?h-qQRDfj)8`B}!{|14{b|(a7ooP)kEnyQcv~Bs4Nwb^
ziCUoPsIx5>Lz-~yYyoPD`hp?Y7?)xhYIYi9@j-iAl4Cpi;3#z!wLpD4+1QznI{G(b
z4Ce3b<p)f_)A#`M;^`-C)4K2^^Iv~5jqGAe<r36svH>|W$R!*?eDEnRbBLRF^T9tE
zKX&)Qsd!Bf+ucs#Ozs<z;pHpL)6)lM$?bTRIIWkLT&&&O2Y=(;LM_PO`!GE;F{zK2
zk8nCZgmwB_eoENXuq`kj*W0fxP<7wMLa}i#^nWR9WdE#Z<A<+5UBX2*b1Ccpddl_L
N^Z%Cy#QG~K{{y}561D&U

delta 6512
zcmYk=d0@}=AHea~`-90@*pOpvY|ddU!!~TWZ-u$$`ZaX8&%*CptlYPeBP2zW<fbNz
zB2=i5k|;4(j-mtkJzt;K_mAISkN4~Sx!(8t{r#TEE^s`%zz2DY2C9h2;Sx@&;ce`N
z<wBh_!}0h8?!mhFJNC!uFuQLW>T?&cJ{B$MBo>>azIPnz^;K9M4`BuT11n-^DHo7-
zB%Ubcq!ms^y>JBegV(SjRw(VHH1@y<9EoLd5r*LhSPKteJ-mYzvD)KKRyvV3m`r@R
zj1{y-Su5CpvH>S`xG;;1XxtO@0(K@YRL=PYOhb*cup{2bHrTGblXAEO_4#es7JtAv
ztP<{|Cicc~oQ~Qu>rpFyEI^_QiSiZf1tT$%cq!@&vQZ0o3;SVYMJEY31sCI9jKOXZ
z)@2#kocIv##z!NaOw}0Q#LktRyokSJJS`I#QrXEqGTx4IG6@GqJ9(4~7g0-mw~94+
zSXC!^$&W{^d15su<8Uf2#D|!K3#&WnfXDF)R;=OV1Qx1k?>UcJ!8|cew)1_7Cb5N#
zGuRL3)^gGmZ=$w9Y;7k`;y_HsENqO|ushbMV@;fan!h<1-$X5F`B*2ZI2d&>=b*m#
zE~fE)sZrNSdoreDS3HG1F{YlAsyGdGP;JI0_$xNWs5mDra3HqCji|Hd4r)tue!>RX
zT<k==I~W(N@8lsZ8Hb5{U*a0rXdi(o#A{J&aw%wZLk0~Gq@xyKb|WXl@JrNbnv`G#
znT*;ZhfrrjWTI89GwOR+VJZAMnEww3w69tvS)VOIt<gp7hB1vT&Io!06Ui^$#9F2!
zMiGxkZPJyf1^NbcbeC>w1xQD|z7@44b5XmrTr%^&FE#6z?BprTNpW(E3niL4nSuG5
z+Y9HRe&_@?z<XF3<61cR4twD5ShuB<f*9S($y|&@{qQHK)ATNC%amyC<UZd^X&rDf
zg^VU`oxDNDemqCqzrC$wDIJ_-5syYKP=$_8KF2Jah@(0=aXfbuPZHnm>|_HTqBi+(
z%+pRnZ~`8|$-%fo7bp3Ny9R=ZG<<}N^k6&`r}5&ks7vd^uC_kZ?`Ec<PR|U~QT-O`
zLUS4;F(lPms2b{$+yS-bFJnnhWD|}e4jkxVqrFj2Tcb0v3Kw#MaW3jYQ=*rX`Iv>X
zF|juVp@4@`oA_3meIUAz#a&T9JOgzP$j0h;5p@g{qu)Q%`QMy`_En*Nw#F~V;>6of
z`}82{nE0r_lVW^u;{X;Y;=TW|!FUuShzmbsEm8~hL+w%X$D@958EOlBh1w+#u&U1g
zyy;HXkP(9`X_{lGHw+u>q%e-fMmPnvWj;o|ei5~x*HN2Zp0y9h;A@24u{8dKeeo~!
zs6hAUoJ=O}^}LfiI{(j-&=-FDf|D}%L(sbzOM!|Fu|f9aFz(|8&4)XA3EPcua-91Q
zj&yPxmyUAsJ<b|!d%~bGj0Nt?#8c$&8f&}kym3x`B0h})UFmj@XJ6*V&=;-A<9K^I
z`Bf)a-_JqahNC9hLedvCUW3}yXHd7}{FCg%mGBGR*BQ0N!kJ~-0xj?Z^54OInEDFy
zKZ-<|DNYy{(lo=#YFzayeWvkLU89+P(`@DY8g(5gKHbTFY=HWK`>0)1d4?6NFNX2_
zQY?&{X4=@vp5^2+_kA_nNm255&7mZvNgSN(q&A+LXCHiQf%W}R)cHOEnK9CAp~Wi}
z*)&Vfw9RE2>L5FZlwCp>+q7M_#Lff9@f`W(U$^P|?^0XHq5{jPIS=+h-Gug_E}eyz
zTTQy7Zb}PKn>rVD1uU_`YTgcYDIJY<aTn?+zlt@m%o}!oXo0#3jl&N3IqLTUrB>Pl
z>8J;dMW{9T43qJ1)V@wwWhEbj`k@u5_a8+qkoKDn!iK0_QS(hFOK=driVsoqUtMF<
zHV1hwAP+1d_207jIt;Z&^HFPZ0(E-jU26r4MJ-S|>dLqZbp<?$x;Yho+iKn#bpaZK
zF}MyR@dWA^`V0N}AO4P=N?W4VWDx51yBaIuPeJpnv!hxSoKF5k)Riw}z3qkxs0Don
zwdv=hcG(`(3grf^`K}$|hGQ+A|L>8|QTzkyu9hdu=4n;bJ{o~qgT2@SucLNR+y?8C
z!KgKwi~9U_jK}YT7Jtv;HmEH&87ts!3}};_CZR95kNV=sjrPHAsQY;a>V1b$UwjR9
z3{-yK`ZN{wg$q!-VhcuKZqS08EUt;V7j(dA9KVVA-<-rMGHT<mSO&vbCG^HRL3^Tp
zI0JP|WC!!FVnyPx&1QYnT`?84z++LnVkv4@eumm5mr;*)p<4ph^hsNslqVw{2jUde
z7hFMoL6NOi(}t)u9F1X^g{3hEwWUs@woLdo`%q`p0#8J}Zv*Q4KE;xFGeAN|bN=mi
zAsO|;5Y#0#1GQyVqrT`Ej>d<mgKG2+CmFa44`R|zC(AJ3E?Y-d;{f98I2=3eb}|M(
z!ATg1|Ip6w+i@%ztv|9gKL>STO3ijM2zQ`<Fno_KAOmm%@n&p;X&+k!)}vPFTht~l
zy4Mb?@wk9^9rnORIl=kA$P)4;YKcNVaT3Z>nSr|RFWqO(-0$Ql@uW|!!0kV?rT09(
zMSjBrPFPjtN4!Qn?sF&W@tH$T=3tS-PKMwLJc|X7a2jU($z>8Z$Z%geS&p}`JTIF4
z6}uJjhNDi_V((*4KGFM*bAHGDs7<~9Yb!{fZ*1?_f#b*z{npNivv4qRffIIu8j1ag
z^PY6Fk?%`739VU)Q&!Sna1-&!@0<+9$kVoz&d2A7t9@@rwnf;N_y%g<cKpG9>*WM(
zb;ilF<R3#FGmU;^5L2;Dm`Z%*Ec1USiIktLN&mrriRYYiatvpm=a&r+^!eF-;k@&U
z|C>#I!+7%7Ua+&^nO|*}d+wr>S9op*YLhp(WMktX?j|mt>xAx?FEF3SLFEeVA4A51
zYqr1VT(>5a-)z_Gga75hZKy3(?*_jUa4TNKkeg0k!0Q-+J#X2PJQ14`Z^rI;8#`g!
z+fEkY3OtRmzXzP;k|^|tO`kt-A93~_Cle@G;I56{dw<$|e*Q0;4U2Iu_x+2laL(Vh
z`J6&++R%TTWa10B8ohf?M&esI6HDH=>AWUDVmlefQ3v1D2etrJ`q%n&296^C9!|z#
z51q8e+xP`0isx@e1)S%vqzkbF`KR$stm=9GvHdV^BkrBY^N)JP@_O7u1!L)mRwN4L
z_oN_pdBl^l*tdWuhk0N^K~FYfi$b2ipZ|f~h-Ve{<N^MII^WM1@%$Q=E$Yeh#B+lF
zgF5;LKI-|0*Q3~*_~c`rgln(XE9Uus5Ij}f^ZUAL3C};pu0t)r<WNrvP@wi<p8r!T
zm7gy<ID3@xBnPXP_T(yFMIF4S9{1z`o-AVpe50%<XNZ@V^Zd<ie0k6RHT)h{(@}MU
zM0IX>Jlym5{bsnHcnap_!!;{-QW;|_BKh4SJbxRVfG-kn!3eAwsV`)A!^dzumcr>+
z4&Oxm&c~?R{bh{PQC+N(=dbN8@HIX(26ex`U)l5jY^ok*AASkDlD`VI$?srQtR3z7
z+jn;yPW)fgQGWxqz^$s-2Zx}(Hxso$`!P^~#5odL14fI#t3{%2J`GUM16{BVP77Y&
zjaq}Fs4x68m>*Tm^LM!f4AbYZI6jA3kV&X#z%{7v|FN1EkO9>AZ!#K_(YuD{AEB0`
z-takU!7gAphSaqDD6CJMjEOiN+u(L=f)ZnKQ`F~YqCUS7wL)K@o((yFdH#M}x0c=5
z2P={PGCqxKu^;}0TA&`at%hSzn|==J$!RC{!yi$nXX84a|EJb8tU;W>@3^`+2;*@X
zuEwteBu0=JRoC+uhF?(+AS3E|l8xWt>zEnm`3p;}Cp@`J{2J<kVp4r;+Qs-A@kiJI
zv*JB}W&8!F5_f9g`77dg*n{}-hMpY4z$g+~B$680i*iv*SR}!d71$it;LoT9do|JX
z524pk`@UY1HEDm;uE<2q{~Ft(G-i}TJJd1r3hG#T7r8$m-;>ZjE7inqNDUf5JsYk=
z?d$8PFRa|u9FE$z*{Cl*i`us#$z~(e_YOrZ*!$Q8uLkp*rf8Q2=xY+qxUd3sketVz
z3`%*@^Ur#_n%Q*u4YdG;n%neC4LTonTRnpMp^%oI|M%RJs0G@J+9H=wD-_ns26->6
z$M<C#37yZ`sMF>y>W2!qwik9sjWbcF&v{J2a&7E-U)1MUptjUW)WKP#tqsols0HYa
zTA&%Iv+ZLHXyO5hTA0|*Uhq675wF2A)a)Ea;l1{@Bu8}g{G-%0)B^SFWMd~2b@YFT
z5tz5LC*NW;Uch@8g6E#HP3zKA%zypKG~#JnDp#UTlO4#JK`!Gk;^SRCSwx)N&GY}s
zIGO7Cr{ed!+wOK2=W*Zg9-iz$*VFUQl6&zcaZ)c&_F=8wp8q%AE!2WcOk;XzVoI7P
zZ{rNigLV2?eq7LmpedN2>#esIsB-*T!3i()A3A7E|3T@Kc3v#uN~XB@oe#RYw4?uj
LVPKSZqrv|G9di;Y

diff --git a/httplint/translations/zh/LC_MESSAGES/messages.po b/httplint/translations/zh/LC_MESSAGES/messages.po
index dd1792a..7e700a4 100644
--- a/httplint/translations/zh/LC_MESSAGES/messages.po
+++ b/httplint/translations/zh/LC_MESSAGES/messages.po
@@ -2076,12 +2076,12 @@ msgstr ""
 "请参阅 [其定义](%(ref_uri)s) 以获取更多信息。"
 
 #: httplint/field/parsers/accept_language.py:68
-#, python-brace-format
-msgid "The q value on '{language}' is invalid."
+#, python-format
+msgid "The q value on '%(language)s' is invalid."
 msgstr ""
 "语言代码 'zh' 翻译：\n"
 "\n"
-"该语言代码 '{language}' 中的 q 值无效。"
+"该语言代码 '%(language)s' 中的 q 值无效。"
 
 #: httplint/field/parsers/accept_language.py:76
 msgid "The Accept-Language header isn't valid."
-- 
2.43.0


From e6820eddf647f3e2d9093eebd190f483a1710ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:48 +0000
Subject: [PATCH 060/123] fix: white space before a semicolon isn't part of the
 value before it

---
 httplint/field/parsers/accept_encoding.py     | 2 +-
 httplint/field/parsers/accept_language.py     | 2 +-
 httplint/field/parsers/content_disposition.py | 2 +-
 httplint/field/parsers/te.py                  | 2 +-
 httplint/field/parsers/transfer_encoding.py   | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/httplint/field/parsers/accept_encoding.py b/httplint/field/parsers/accept_encoding.py
index e4dbb2a..92a7d65 100644
--- a/httplint/field/parsers/accept_encoding.py
+++ b/httplint/field/parsers/accept_encoding.py
@@ -27,7 +27,7 @@ acceptable in the response."""
             encoding, param_str = field_value.split(";", 1)
         except ValueError:
             encoding, param_str = field_value, ""
-        encoding = encoding.lower()
+        encoding = encoding.strip(" \t").lower()
         param_dict = parse_params(param_str, add_note, ["q"], delim=";")
         return encoding, param_dict
 
diff --git a/httplint/field/parsers/accept_language.py b/httplint/field/parsers/accept_language.py
index 52480f7..1ed5fa0 100644
--- a/httplint/field/parsers/accept_language.py
+++ b/httplint/field/parsers/accept_language.py
@@ -36,7 +36,7 @@ preferred in the response."""
         except ValueError:
             language, param_str = field_value, ""
 
-        language = language.lower()
+        language = language.strip(" \t").lower()
         param_dict = parse_params(param_str, add_note, ["q"], delim=";")
 
         q_val: Optional[float] = None
diff --git a/httplint/field/parsers/content_disposition.py b/httplint/field/parsers/content_disposition.py
index 53158ef..b85d6f5 100644
--- a/httplint/field/parsers/content_disposition.py
+++ b/httplint/field/parsers/content_disposition.py
@@ -29,7 +29,7 @@ the file, rather than display it."""
             disposition, param_str = field_value.split(";", 1)
         except ValueError:
             disposition, param_str = field_value, ""
-        disposition = disposition.lower()
+        disposition = disposition.strip(" \t").lower()
         param_dict = parse_params(param_str, add_note)
         if disposition not in ["inline", "attachment"]:
             add_note(DISPOSITION_UNKNOWN, disposition=disposition)
diff --git a/httplint/field/parsers/te.py b/httplint/field/parsers/te.py
index 830a2a0..6131460 100644
--- a/httplint/field/parsers/te.py
+++ b/httplint/field/parsers/te.py
@@ -26,7 +26,7 @@ The most common transfer-coding, `chunked`, doesn't need to be listed in `TE`.
             encoding, param_str = field_value.split(";", 1)
         except ValueError:
             encoding, param_str = field_value, ""
-        encoding = encoding.lower()
+        encoding = encoding.strip(" \t").lower()
         param_dict = parse_params(param_str, add_note, ["q"], delim=";")
         return encoding, param_dict
 
diff --git a/httplint/field/parsers/transfer_encoding.py b/httplint/field/parsers/transfer_encoding.py
index 9e27535..8505ce5 100644
--- a/httplint/field/parsers/transfer_encoding.py
+++ b/httplint/field/parsers/transfer_encoding.py
@@ -39,7 +39,7 @@ Transfer codings can only be used in HTTP/1; HTTP/2 and HTTP/3 do not support th
             coding, param_str = field_value.split(";", 1)
         except ValueError:
             coding, param_str = field_value, ""
-        coding = coding.lower()
+        coding = coding.strip(" \t").lower()
         param_dict = parse_params(param_str, add_note, True)
         if param_dict:
             add_note(TRANSFER_CODING_PARAM)
-- 
2.43.0


From 0545e8f3cfc06ee4bbe512f6170c3a1caceffeee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:54 +0000
Subject: [PATCH 061/123] fix: look for both path characters in filename and
 filename*

---
 httplint/field/parsers/content_disposition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/field/parsers/content_disposition.py b/httplint/field/parsers/content_disposition.py
index b85d6f5..6d1bc4b 100644
--- a/httplint/field/parsers/content_disposition.py
+++ b/httplint/field/parsers/content_disposition.py
@@ -39,7 +39,7 @@ the file, rather than display it."""
         filename_star = param_dict.get("filename*", None)
         if filename and "%" in filename:
             add_note(DISPOSITION_FILENAME_PERCENT)
-        if (filename and "/" in filename) or (filename_star and r"\\" in filename_star):
+        if any(char in (name or "") for name in (filename, filename_star) for char in "/\\"):
             add_note(DISPOSITION_FILENAME_PATH_CHAR)
         return disposition, param_dict
 
-- 
2.43.0


From e0053f2691064afbdfcdb03b7fc118217af1be6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:20 +0000
Subject: [PATCH 062/123] fix: q values aren't just any text that Python reads
 as a number

---
 httplint/field/parsers/accept.py          | 14 +++-----------
 httplint/field/parsers/accept_language.py | 14 +++-----------
 httplint/field/utils.py                   |  7 +++++++
 3 files changed, 13 insertions(+), 22 deletions(-)

diff --git a/httplint/field/parsers/accept.py b/httplint/field/parsers/accept.py
index fd2c048..3b05321 100644
--- a/httplint/field/parsers/accept.py
+++ b/httplint/field/parsers/accept.py
@@ -4,7 +4,7 @@ from typing import Optional
 from httplint.field import BAD_SYNTAX
 from httplint.field.list_field import HttpListField
 from httplint.field.tests import FieldTest
-from httplint.field.utils import parse_media_type
+from httplint.field.utils import parse_media_type, parse_qvalue
 from httplint.note import Note, categories, levels
 from httplint.syntax import rfc9110
 from httplint.types import (
@@ -45,17 +45,9 @@ acceptable in responses."""
         q_val: Optional[float] = None
         if "q" in param_dict:
             try:
-                q_str = param_dict.pop("q")
-                if q_str is None:
-                    raise ValueError
-                if len(q_str) > 5:  # 0.123
-                    raise ValueError
-                q_val = float(q_str)
-                if not 0.0 <= q_val <= 1.0:
-                    raise ValueError
-            except (ValueError, TypeError):
+                q_val = parse_qvalue(param_dict.pop("q"))
+            except ValueError:
                 add_note(BAD_Q_VALUE, media_type=media_type)
-                q_val = None  # Discard invalid q
 
         return AcceptValue(media_type, param_dict, q_val)
 
diff --git a/httplint/field/parsers/accept_language.py b/httplint/field/parsers/accept_language.py
index 1ed5fa0..a2353b8 100644
--- a/httplint/field/parsers/accept_language.py
+++ b/httplint/field/parsers/accept_language.py
@@ -4,7 +4,7 @@ from typing import Optional
 from httplint.field import BAD_SYNTAX
 from httplint.field.list_field import HttpListField
 from httplint.field.tests import FieldTest
-from httplint.field.utils import parse_params
+from httplint.field.utils import parse_params, parse_qvalue
 from httplint.note import Note, categories, levels
 from httplint.syntax import rfc9110
 from httplint.types import (
@@ -41,18 +41,10 @@ preferred in the response."""
 
         q_val: Optional[float] = None
         if "q" in param_dict:
-            q_str = param_dict.pop("q")
             try:
-                if q_str is None:
-                    raise ValueError
-                if len(q_str) > 5:
-                    raise ValueError
-                q_val = float(q_str)
-                if not 0.0 <= q_val <= 1.0:
-                    raise ValueError
-            except (ValueError, TypeError):
+                q_val = parse_qvalue(param_dict.pop("q"))
+            except ValueError:
                 add_note(BAD_Q_VALUE, language=language)
-                q_val = None
 
         if param_dict:
             # RFC 9110 only defines q parameter for Accept-Language
diff --git a/httplint/field/utils.py b/httplint/field/utils.py
index a7b15b5..ab396aa 100644
--- a/httplint/field/utils.py
+++ b/httplint/field/utils.py
@@ -154,6 +154,13 @@ def parse_non_negative(value: str) -> int:
     return seconds
 
 
+def parse_qvalue(value: Optional[str]) -> float:
+    "Parse a qvalue (RFC 9110, Section 12.4.2). Raises ValueError if it's bad."
+    if value is None or not re.match(rf"^{rfc9110.qvalue}\Z", value, RE_FLAGS):
+        raise ValueError("not a qvalue")
+    return float(value)
+
+
 def unquote_string(instr: str) -> str:
     """
     Unquote a unicode string; does NOT unquote control characters.
-- 
2.43.0


From b608312a8933ad0d8b77b723967465d30f83f277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:40 +0000
Subject: [PATCH 063/123] fix: only spaces and tabs are removed from the ends
 of Structured Field lines

---
 httplint/field/structured_field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/field/structured_field.py b/httplint/field/structured_field.py
index 4758b0f..0b013c4 100644
--- a/httplint/field/structured_field.py
+++ b/httplint/field/structured_field.py
@@ -35,7 +35,7 @@ class StructuredField(HttpField[TMessage], Generic[TMessage]):
         if getattr(self, "_sf_parsed", False):
             return
 
-        combined_value = ", ".join(self.value).strip()
+        combined_value = ", ".join(line.strip(" \t") for line in self.value)
 
         def on_duplicate_key(key: str, context: str) -> None:
             add_note(DUPLICATE_KEY, key=key, context=context)
-- 
2.43.0


From a87f8675d9be22ef686feb1ab2e4bd1baee83c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:14 +0000
Subject: [PATCH 064/123] fix: 1xx and 204 responses can't have content

---
 httplint/message.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/httplint/message.py b/httplint/message.py
index 24b40fc..333a95f 100644
--- a/httplint/message.py
+++ b/httplint/message.py
@@ -304,7 +304,9 @@ class HttpResponseLinter(HttpMessageLinter):
     def can_have_content(self) -> bool:
         if self.is_head_response:
             return False
-        if self.status_code in [304]:
+        if self.status_code is not None and 100 <= self.status_code <= 199:
+            return False
+        if self.status_code in [204, 304]:
             return False
         return True
 
-- 
2.43.0


From 0640ab1cff5e302997603ea1df01ce3ccef00b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:20 +0000
Subject: [PATCH 065/123] fix: a status code is only digits

---
 httplint/message.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/httplint/message.py b/httplint/message.py
index 333a95f..042c946 100644
--- a/httplint/message.py
+++ b/httplint/message.py
@@ -291,6 +291,8 @@ class HttpResponseLinter(HttpMessageLinter):
         self.version = version.decode("ascii", "replace")
         self.status_code_str = status_code.decode("ascii", "replace")
         try:
+            if not self.status_code_str.isdigit():  # int() takes signs, spaces and underscores
+                raise ValueError
             self.status_code = int(self.status_code_str)
         except ValueError:
             self.notes.add("status", STATUS_CODE_NON_NUMERIC)
-- 
2.43.0


From fd475778f68e6f20c97e60a4964e78155d98ee36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:54 +0000
Subject: [PATCH 066/123] fix: types that aren't recognised don't mismatch
 their content

---
 httplint/content_type.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/httplint/content_type.py b/httplint/content_type.py
index 58e8591..69314b1 100644
--- a/httplint/content_type.py
+++ b/httplint/content_type.py
@@ -4,6 +4,10 @@ from httplint.note import Note, categories, levels
 from httplint.types import LinterProtocol
 
 
+# The types whose content sniffpy recognises when they're declared.
+RECOGNISED_TYPES = ["image/gif", "image/jpeg", "image/png", "image/webp", "image/x-icon"]
+
+
 class CONTENT_TYPE_MISMATCH(Note):
     category = categories.GENERAL
     level = levels.WARN
@@ -40,6 +44,10 @@ def verify_content_type(linter: LinterProtocol) -> None:
         # If sniffpy fails (e.g. invalid declared type), we can't verify.
         return
 
+    if sniffed_type == sniffpy.constants.UNDEFINED and declared_type not in RECOGNISED_TYPES:
+        # other types (e.g., AVIF, MP4) aren't recognised even when it's what they are.
+        return
+
     if str(sniffed_type) != declared_type:
         # workaround for https://github.com/mnot/httplint/issues/112
         if declared_type == "text/html" and str(sniffed_type) in [
-- 
2.43.0


From 62b6e6bda79707d778bb733e1825232b46229da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:59 +0000
Subject: [PATCH 067/123] fix: unknown/unknown doesn't mismatch the content,
 and isn't sniffed with prints

---
 httplint/content_type.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/httplint/content_type.py b/httplint/content_type.py
index 69314b1..e762004 100644
--- a/httplint/content_type.py
+++ b/httplint/content_type.py
@@ -37,6 +37,9 @@ def verify_content_type(linter: LinterProtocol) -> None:
     declared_type = linter.headers.parsed["content-type"][0]
     if not declared_type:
         return
+    if declared_type in ["unknown/unknown", "application/unknown", "*/*"]:
+        # These don't say what the content is (and sniffpy prints when it looks for WebM).
+        return
 
     try:
         sniffed_type = sniffpy.sniff(linter.content_sample, declared_type)
-- 
2.43.0


From 0084746c196c469e74f546602da05366df5ab884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:05 +0000
Subject: [PATCH 068/123] fix: content with an unsupported coding isn't checked
 against its type and charset

---
 httplint/charset.py          |  3 ++-
 httplint/content_encoding.py | 10 ++++++++++
 httplint/content_type.py     |  3 ++-
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/httplint/charset.py b/httplint/charset.py
index c106cef..9dfd286 100644
--- a/httplint/charset.py
+++ b/httplint/charset.py
@@ -3,6 +3,7 @@ from typing import Optional
 
 import chardet
 
+from httplint.content_encoding import has_unsupported_coding
 from httplint.note import Note, categories, levels
 from httplint.types import LinterProtocol
 
@@ -37,7 +38,7 @@ def verify_charset(linter: LinterProtocol) -> None:  # pylint: disable=too-many-
     Verify that the content's character encoding matches what was declared
     (or implied) by the Content-Type header.
     """
-    if not linter.content_hash or not linter.content_sample:
+    if not linter.content_hash or not linter.content_sample or has_unsupported_coding(linter):
         return
 
     status_code = getattr(linter, "status_code", None)
diff --git a/httplint/content_encoding.py b/httplint/content_encoding.py
index 0ed7194..8fe8294 100644
--- a/httplint/content_encoding.py
+++ b/httplint/content_encoding.py
@@ -10,9 +10,19 @@ from httplint.note import Note, categories, levels
 from httplint.types import LinterProtocol
 from httplint.util import display_bytes, f_num
 
+SUPPORTED_CODINGS = ["gzip", "x-gzip", "br", "identity"]
 MAX_DECOMPRESSED_BYTES = 100 * 1024 * 1024  # 100MB
 
 
+def has_unsupported_coding(message: LinterProtocol) -> bool:
+    """
+    Say whether the message has a content coding that isn't decoded, so that
+    its content can't be examined.
+    """
+    codings = message.headers.parsed.get("content-encoding", [])
+    return any(coding not in SUPPORTED_CODINGS for coding in codings)
+
+
 class ContentEncodingProcessor:
     def __init__(self, message: LinterProtocol) -> None:
         self.message = weakref.proxy(message)
diff --git a/httplint/content_type.py b/httplint/content_type.py
index e762004..f5833f4 100644
--- a/httplint/content_type.py
+++ b/httplint/content_type.py
@@ -1,5 +1,6 @@
 import sniffpy  # type: ignore[import-untyped]
 
+from httplint.content_encoding import has_unsupported_coding
 from httplint.note import Note, categories, levels
 from httplint.types import LinterProtocol
 
@@ -21,7 +22,7 @@ def verify_content_type(linter: LinterProtocol) -> None:
     """
     Verify that the content matches the declared Content-Type.
     """
-    if not linter.content_hash:
+    if not linter.content_hash or has_unsupported_coding(linter):
         return
 
     # Don't verify content type for responses that don't carry a full representation
-- 
2.43.0


From 88d76659e454955292940aa7169c0a8bda021138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:10 +0000
Subject: [PATCH 069/123] fix: 199 is an informational status code too

---
 httplint/charset.py      | 2 +-
 httplint/content_type.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/httplint/charset.py b/httplint/charset.py
index 9dfd286..8faca27 100644
--- a/httplint/charset.py
+++ b/httplint/charset.py
@@ -42,7 +42,7 @@ def verify_charset(linter: LinterProtocol) -> None:  # pylint: disable=too-many-
         return
 
     status_code = getattr(linter, "status_code", None)
-    if status_code in [204, 205, 304, 206] + list(range(100, 199)) or getattr(
+    if status_code in [204, 205, 304, 206] + list(range(100, 200)) or getattr(
         linter, "is_head_response", False
     ):
         return
diff --git a/httplint/content_type.py b/httplint/content_type.py
index f5833f4..9ffc375 100644
--- a/httplint/content_type.py
+++ b/httplint/content_type.py
@@ -27,7 +27,7 @@ def verify_content_type(linter: LinterProtocol) -> None:
 
     # Don't verify content type for responses that don't carry a full representation
     status_code = getattr(linter, "status_code", None)
-    if status_code in [204, 205, 304, 206] + list(range(100, 199)) or getattr(
+    if status_code in [204, 205, 304, 206] + list(range(100, 200)) or getattr(
         linter, "is_head_response", False
     ):
         return
-- 
2.43.0


From 35cc3a7c624773d6e1bb8bc4187aa4a0dd852893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:15 +0000
Subject: [PATCH 070/123] fix: icons and bitmaps match their media types

---
 httplint/content_type.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/httplint/content_type.py b/httplint/content_type.py
index 9ffc375..ce1e670 100644
--- a/httplint/content_type.py
+++ b/httplint/content_type.py
@@ -59,6 +59,11 @@ def verify_content_type(linter: LinterProtocol) -> None:
             "application/atom+xml",
         ]:
             return
+        # what sniffpy calls these types
+        if declared_type == "image/vnd.microsoft.icon" and str(sniffed_type) == "image/x-icon":
+            return
+        if declared_type == "image/bmp" and linter.content_sample.startswith(b"BM"):
+            return
         linter.notes.add(
             "field-content-type",
             CONTENT_TYPE_MISMATCH,
-- 
2.43.0


From 70e030150c8dc16e1653cfd6cc48c3ae85fab44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:02 +0000
Subject: [PATCH 071/123] fix: only spaces and tabs are white space in cookies

---
 httplint/field/broken_field.py       | 2 +-
 httplint/field/parsers/cookie.py     | 2 +-
 httplint/field/parsers/set_cookie.py | 6 +++---
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/httplint/field/broken_field.py b/httplint/field/broken_field.py
index 4148b6b..97b5d82 100644
--- a/httplint/field/broken_field.py
+++ b/httplint/field/broken_field.py
@@ -37,7 +37,7 @@ class BrokenField(HttpField[TMessage], Generic[TMessage]):
                 if not re.match(rf"^\s*(?:{self.syntax})\s*$", raw_value, RE_FLAGS):
                     offset_add_note(BAD_SYNTAX, ref_uri=self.reference)
             try:
-                parsed_values.append(self.parse(raw_value.strip(), offset_add_note))
+                parsed_values.append(self.parse(raw_value.strip(" \t"), offset_add_note))
             except ValueError:
                 pass
         self.value = parsed_values
diff --git a/httplint/field/parsers/cookie.py b/httplint/field/parsers/cookie.py
index a5d880f..0a7f31b 100644
--- a/httplint/field/parsers/cookie.py
+++ b/httplint/field/parsers/cookie.py
@@ -31,7 +31,7 @@ The `Cookie` header field contains stored HTTP cookies previously sent by the se
         # Split by ";" to handle semicolon-separated pairs within a single header value.
         items = field_value.split(";")
         for item in items:
-            item = item.strip()
+            item = item.strip(" \t")
             if not item:
                 continue
 
diff --git a/httplint/field/parsers/set_cookie.py b/httplint/field/parsers/set_cookie.py
index 04ff73f..2305ee8 100644
--- a/httplint/field/parsers/set_cookie.py
+++ b/httplint/field/parsers/set_cookie.py
@@ -94,7 +94,7 @@ def loose_parse(  # pylint: disable=too-many-branches
         name = ""
         value = name_value_pair
 
-    name, value = name.strip(), value.strip()
+    name, value = name.strip(" \t"), value.strip(" \t")
     if name == "" and value == "":
         add_note(SET_COOKIE_NO_NAME)
         raise ValueError("Cookie doesn't have a name")
@@ -125,8 +125,8 @@ def loose_parse(  # pylint: disable=too-many-branches
         else:
             attribute_name, attribute_value = cookie_av, ""
 
-        attribute_name = attribute_name.strip()
-        attribute_value = attribute_value.strip()
+        attribute_name = attribute_name.strip(" \t")
+        attribute_value = attribute_value.strip(" \t")
         case_norm_attribute_name = attribute_name.lower()
 
         if case_norm_attribute_name in seen_attributes:
-- 
2.43.0


From 0249c9380acbf82ee44c30be4b754352c7f16cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:10 +0000
Subject: [PATCH 072/123] fix: the parts of a cookie's date are whole tokens

---
 httplint/field/parsers/set_cookie.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/httplint/field/parsers/set_cookie.py b/httplint/field/parsers/set_cookie.py
index 2305ee8..c067e78 100644
--- a/httplint/field/parsers/set_cookie.py
+++ b/httplint/field/parsers/set_cookie.py
@@ -333,7 +333,7 @@ def loose_date_parse(cookie_date: str) -> int:
     for date_token in date_tokens:
         re_match = None
         if not found_time:
-            re_match = match(r"^(\d{2}:\d{2}:\d{2})(?:\D)?", date_token)
+            re_match = match(r"^(\d{1,2}:\d{1,2}:\d{1,2})(?:\D|$)", date_token)
             if re_match:
                 found_time = True
                 hour_value, minute_value, second_value = [
@@ -341,7 +341,7 @@ def loose_date_parse(cookie_date: str) -> int:
                 ]
                 continue
         if not found_day_of_month:
-            re_match = match(r"^(\d\d?)(?:\D)?", date_token)
+            re_match = match(r"^(\d\d?)(?:\D|$)", date_token)
             if re_match:
                 found_day_of_month = True
                 day_of_month_value = int(re_match.group(1))
@@ -351,7 +351,7 @@ def loose_date_parse(cookie_date: str) -> int:
             month_value = MONTHS[date_token[:3].lower()]
             continue
         if not found_year:
-            re_match = match(r"^(\d{2,4})(?:\D)?", date_token)
+            re_match = match(r"^(\d{2,4})(?:\D|$)", date_token)
             if re_match:
                 found_year = True
                 year_value = int(re_match.group(1))
-- 
2.43.0


From cb4181aa054c9fa4d30f4a59fd911c7dba984f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:17 +0000
Subject: [PATCH 073/123] fix: a cookie's date that doesn't exist is a bad date

---
 httplint/field/parsers/set_cookie.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/httplint/field/parsers/set_cookie.py b/httplint/field/parsers/set_cookie.py
index c067e78..77b8913 100644
--- a/httplint/field/parsers/set_cookie.py
+++ b/httplint/field/parsers/set_cookie.py
@@ -1,4 +1,4 @@
-from calendar import timegm
+from calendar import monthrange, timegm
 from re import match, split
 from typing import Any, List, Optional, Tuple, Union
 
@@ -375,6 +375,8 @@ def loose_date_parse(cookie_date: str) -> int:
         raise ValueError(f"{day_of_month_value} is out of range for day_of_month")
     if year_value < 1601:
         raise ValueError(f"{year_value} is out of range for year")
+    if day_of_month_value > monthrange(year_value, month_value)[1]:
+        raise ValueError(f"{day_of_month_value} is not in that month")
     if hour_value > 23:
         raise ValueError(f"{hour_value} is out of range for hour")
     if minute_value > 59:
-- 
2.43.0


From aba58bee36e85e7c37c59ee7b93b1721ae16fc14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:28 +0000
Subject: [PATCH 074/123] fix: a negative Max-Age in Set-Cookie is a number

---
 httplint/field/parsers/set_cookie.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/field/parsers/set_cookie.py b/httplint/field/parsers/set_cookie.py
index 77b8913..9f65541 100644
--- a/httplint/field/parsers/set_cookie.py
+++ b/httplint/field/parsers/set_cookie.py
@@ -197,7 +197,7 @@ def _process_cookie_attribute(  # pylint: disable=too-many-branches,too-many-arg
             return lifetime_note_added
         if attribute_value[0] == "0" and len(attribute_value) > 1:
             add_note(SET_COOKIE_LEADING_ZERO_MAX_AGE, cookie_name=cookie_name)
-        if not attribute_value.isdecimal():
+        if not attribute_value.removeprefix("-").isdecimal():  # it can be negative
             add_note(SET_COOKIE_NON_DIGIT_MAX_AGE, cookie_name=cookie_name)
             return lifetime_note_added
         delta_seconds = int(attribute_value)
-- 
2.43.0


From 5da150b60ae6880f65acadd246abb2efc0d8ce71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:52 +0000
Subject: [PATCH 075/123] fix: notes about preflight requests name a field
 that's there

---
 httplint/field/cors.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/httplint/field/cors.py b/httplint/field/cors.py
index 7397a74..e0a73a3 100644
--- a/httplint/field/cors.py
+++ b/httplint/field/cors.py
@@ -27,18 +27,21 @@ def check_preflight_request(message: RequestLinterProtocol) -> None:
     has_acr_headers = "access-control-request-headers" in message.headers.parsed
 
     if has_acr_method or has_acr_headers:
+        acr_field = (
+            "Access-Control-Request-Method" if has_acr_method else "Access-Control-Request-Headers"
+        )
         if message.method != "OPTIONS":
             message.notes.add(
                 "method",
                 CORS_PREFLIGHT_REQ_METHOD_WRONG,
-                field_name="Access-Control-Request-Method",
+                field_name=acr_field,
                 method=message.method,
             )
         if "origin" not in message.headers.parsed:
             message.notes.add(
                 "field-origin",
                 CORS_PREFLIGHT_REQ_NO_ORIGIN,
-                field_name="Access-Control-Request-Method",
+                field_name=acr_field,
             )
         if not has_acr_method:
             message.notes.add(
-- 
2.43.0


From 4edba7932ea61d9b0911be11fb0547deded4bf84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:59 +0000
Subject: [PATCH 076/123] fix: the note about CORS preflight headers is about
 the fields that it lists

---
 httplint/field/cors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/field/cors.py b/httplint/field/cors.py
index e0a73a3..dd7d66d 100644
--- a/httplint/field/cors.py
+++ b/httplint/field/cors.py
@@ -74,7 +74,7 @@ def check_preflight_response(message: ResponseLinterProtocol) -> None:
 
         if bad_headers:
             message.notes.add(
-                "field-access-control-allow-headers",
+                " ".join(f"field-{name.lower()}" for name in bad_headers),
                 CORS_PREFLIGHT_ONLY,
                 headers=", ".join(bad_headers),
             )
-- 
2.43.0


From c43c12e9e0af34c09efbbc42c160e8f55252d17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:06 +0000
Subject: [PATCH 077/123] fix: Access-Control-Allow-Origin: null allows a null
 origin, and an invalid one isn't null

---
 httplint/field/cors.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/httplint/field/cors.py b/httplint/field/cors.py
index dd7d66d..fbcf027 100644
--- a/httplint/field/cors.py
+++ b/httplint/field/cors.py
@@ -98,8 +98,8 @@ def check_access_control_allow_origin(  # pylint: disable=invalid-name
 
     request_origin = message.request.headers.parsed["origin"]
     if request_origin is None:
-        # it's a "null" origin
-        request_origin_str = "null"
+        # it's a "null" origin, or not valid
+        request_origin_str = message.request.headers.handlers["origin"].raw_values[0].strip(" \t")
     elif hasattr(request_origin, "scheme"):
         # it's an OriginValue
         ov = request_origin
@@ -110,7 +110,7 @@ def check_access_control_allow_origin(  # pylint: disable=invalid-name
         # fallback, shouldn't happen with new parsers
         request_origin_str = str(request_origin)
 
-    if acao_value == "null":
+    if acao_value == "null" and request_origin_str != "null":
         message.notes.add("field-access-control-allow-origin", CORS_ORIGIN_NULL)
         return
 
-- 
2.43.0


From be93c3410400eb2d0d91f8f36171806652e30904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:44 +0000
Subject: [PATCH 078/123] fix: the kind of field section is translated, like
 the kind of message

---
 httplint/field/section.py | 6 +++---
 httplint/message.py       | 4 +++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/httplint/field/section.py b/httplint/field/section.py
index 432c19c..445cfd9 100644
--- a/httplint/field/section.py
+++ b/httplint/field/section.py
@@ -4,7 +4,7 @@ from typing import Any, Dict
 
 from httplint.field import HttpField
 from httplint.field.finder import HttpFieldFinder
-from httplint.i18n import L_
+from httplint.i18n import L_, translate
 from httplint.note import Note, categories, levels
 from httplint.types import (
     FieldDictType,
@@ -80,7 +80,7 @@ class FieldSection:
             self.message.notes.add(
                 "field-block",
                 FIELD_SECTION_TOO_LARGE,
-                field_type=self.is_trailer and L_("trailer") or L_("header"),
+                field_type=translate(self.is_trailer and L_("trailer") or L_("header")),
                 section_size=f_num(self.size),
             )
 
@@ -90,7 +90,7 @@ class FieldSection:
                 self.message.notes.add,
                 f"field-{handler.canonical_name.lower()}",
                 field_name=handler.canonical_name,
-                field_type=self.is_trailer and L_("trailer") or L_("header"),
+                field_type=translate(self.is_trailer and L_("trailer") or L_("header")),
             )
             handler.finish(field_add_note)
             self.parsed[handler.norm_name] = handler.value
diff --git a/httplint/message.py b/httplint/message.py
index 042c946..589c1a6 100644
--- a/httplint/message.py
+++ b/httplint/message.py
@@ -158,7 +158,9 @@ class HttpMessageLinter:
                     self.notes.add,
                     f"field-{handler.canonical_name.lower()}",
                     field_name=handler.canonical_name,
-                    field_type=section.is_trailer and L_("trailer") or L_("header"),
+                    field_type=translate(
+                        section.is_trailer and L_("trailer") or L_("header")
+                    ),
                 )
                 if handler.value is not None:
                     handler.post_check(field_add_note)
-- 
2.43.0


From 7b0b4ccd9008f792121633fbeb8614945d616cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:40 +0000
Subject: [PATCH 079/123] fix: the CLI accepts HTTP/3 responses

---
 httplint/cli/http_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/cli/http_parser.py b/httplint/cli/http_parser.py
index fb1afbe..84dcc0f 100644
--- a/httplint/cli/http_parser.py
+++ b/httplint/cli/http_parser.py
@@ -95,7 +95,7 @@ class HttpCliParser(HttpMessageHandler):
         except (ValueError, IndexError):
             self.input_error(StartLineError(top_line.decode("utf-8", "replace")), True)
             raise ValueError from None
-        if proto != b"HTTP" or version not in [b"1.0", b"1.1", b"2"]:
+        if proto != b"HTTP" or version not in [b"1.0", b"1.1", b"2", b"3"]:
             self.input_error(HttpVersionError(version.decode("utf-8", "replace")), True)
             raise ValueError
         try:
-- 
2.43.0


From c3577c63075d1db19f1d3ba126d24ba753a7d1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:47 +0000
Subject: [PATCH 080/123] fix: the CLI reports on informational responses

---
 httplint/cli/http_parser.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/httplint/cli/http_parser.py b/httplint/cli/http_parser.py
index 84dcc0f..2dab5cc 100644
--- a/httplint/cli/http_parser.py
+++ b/httplint/cli/http_parser.py
@@ -24,6 +24,7 @@ class HttpCliParser(HttpMessageHandler):
         self.start_time = start_time
         self.mode = modes(args.mode)
         self.linter: HttpMessageLinter
+        self.interim = False  # whether the last message was an informational response
         HttpMessageHandler.__init__(self)
 
     def handle_input(self, inbytes: bytes) -> None:
@@ -31,6 +32,9 @@ class HttpCliParser(HttpMessageHandler):
         if self._input_state == States.HEADERS_DONE:
             # there isn't any more input; unless that's how it ends, the message is incomplete
             self.input_end([], self._input_delimit == Delimiters.CLOSE)
+        elif self._input_state == States.WAITING and self.interim and not self._input_buffer:
+            # there wasn't a final response after it
+            self.input_end([])
 
     def input_start(
         self,
@@ -53,8 +57,10 @@ class HttpCliParser(HttpMessageHandler):
             version, status_code, status_phrase = self.response_topline(top_line)
             self.linter.process_response_topline(version, status_code, status_phrase)
             self.linter.process_headers(hdr_tuples)
-            is_final = not status_code.startswith(b"1")
-            allows_body = is_final and (
+            informational = status_code.startswith(b"1")
+            is_final = not informational or status_code == b"101"
+            self.interim = not is_final
+            allows_body = not informational and (
                 status_code not in no_body_status
             )  # and (self.method != b"HEAD")
         return allows_body, is_final
-- 
2.43.0


From 593a1db32adba585675dd1e37f14b70b05eeb1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:53 +0000
Subject: [PATCH 081/123] fix: the CLI says so when it can't parse a message,
 rather than nothing

---
 httplint/cli/__init__.py    |  2 ++
 httplint/cli/http_parser.py | 11 +++++++++++
 2 files changed, 13 insertions(+)

diff --git a/httplint/cli/__init__.py b/httplint/cli/__init__.py
index 8eebd20..c3bc2c2 100644
--- a/httplint/cli/__init__.py
+++ b/httplint/cli/__init__.py
@@ -12,6 +12,8 @@ def main() -> None:
         start_time = time.time() if args.now else None
         parser = HttpCliParser(args, start_time)
         parser.handle_input(sys.stdin.buffer.read())
+    if parser.failed:
+        sys.exit(1)
 
 
 def getargs() -> Namespace:
diff --git a/httplint/cli/http_parser.py b/httplint/cli/http_parser.py
index 2dab5cc..f4f6290 100644
--- a/httplint/cli/http_parser.py
+++ b/httplint/cli/http_parser.py
@@ -1,3 +1,4 @@
+import sys
 from argparse import Namespace
 from enum import Enum
 from typing import List, Optional, Tuple
@@ -17,6 +18,10 @@ class modes(Enum):
     RESPONSE = "response"
 
 
+class IncompleteHeadersError(HttpError):
+    desc = "The input doesn't have a message with complete headers"
+
+
 class HttpCliParser(HttpMessageHandler):
     default_state = States.WAITING
 
@@ -24,6 +29,7 @@ class HttpCliParser(HttpMessageHandler):
         self.start_time = start_time
         self.mode = modes(args.mode)
         self.linter: HttpMessageLinter
+        self.failed = False  # whether the input couldn't be parsed
         self.interim = False  # whether the last message was an informational response
         HttpMessageHandler.__init__(self)
 
@@ -35,6 +41,8 @@ class HttpCliParser(HttpMessageHandler):
         elif self._input_state == States.WAITING and self.interim and not self._input_buffer:
             # there wasn't a final response after it
             self.input_end([])
+        elif self._input_state == States.WAITING:
+            self.input_error(IncompleteHeadersError())
 
     def input_start(
         self,
@@ -83,6 +91,9 @@ class HttpCliParser(HttpMessageHandler):
 
     def input_error(self, err: HttpError, close: bool = True) -> None:
         "Indicate an error state."
+        self.failed = True
+        detail = f": {err.detail}" if err.detail else ""
+        print(f"httplint: {err.desc}{detail}", file=sys.stderr)
 
     def request_topline(self, top_line: bytes) -> Tuple[bytes, bytes, bytes]:
         try:
-- 
2.43.0


From 8f82a7daedc5b737ac87acebb98f532b3ca01543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:19 +0000
Subject: [PATCH 082/123] fix: white space around a single value doesn't
 backtrack polynomially

---
 httplint/field/singleton_field.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/httplint/field/singleton_field.py b/httplint/field/singleton_field.py
index 61826b0..9b2eeb1 100644
--- a/httplint/field/singleton_field.py
+++ b/httplint/field/singleton_field.py
@@ -32,13 +32,13 @@ class SingletonField(HttpField[TMessage], Generic[TMessage]):
         else:
             if len(self.raw_values) > 1:
                 add_note(SINGLE_HEADER_REPEAT)
-            first_raw = self.raw_values[0]
+            first_raw = self.raw_values[0].strip(" \t")
             if self.syntax:
-                if not re.match(rf"^[ \t]*(?:{self.syntax})[ \t]*\Z", first_raw, RE_FLAGS):
+                if not re.match(rf"^(?:{self.syntax})\Z", first_raw, RE_FLAGS):
                     if self.report_syntax:
                         add_note(BAD_SYNTAX, ref_uri=self.reference)
             try:
-                self.value = self.parse(first_raw.strip(" \t"), add_note)
+                self.value = self.parse(first_raw, add_note)
             except ValueError:
                 self.value = None
 
-- 
2.43.0


From 282ba17aff1dd5bd39bb7b54275ed719e70122ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:17 +0000
Subject: [PATCH 083/123] fix: a long name in a gzip header isn't read again
 for each chunk

---
 httplint/content_encoding.py | 39 ++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 20 deletions(-)

diff --git a/httplint/content_encoding.py b/httplint/content_encoding.py
index 8fe8294..0ebdc11 100644
--- a/httplint/content_encoding.py
+++ b/httplint/content_encoding.py
@@ -121,8 +121,10 @@ class GzipProcessor:
                 chunk = self._read_gzip_header(self._gzip_header_buffer)
                 self._in_gzip = True
                 self._gzip_header_buffer = b""
-            except IndexError:
-                return b""  # not a full header yet
+            except IndexError as index_error:
+                # not a full header yet; keep what's needed to read the rest of it
+                self._gzip_header_buffer = self._gzip_header_buffer[: index_error.args[1]]
+                return b""
             except IOError as gzip_error:
                 # like other implementations, ignore anything after the first member
                 # that isn't another one.
@@ -189,11 +191,14 @@ class GzipProcessor:
         """
         Parse a string for a GZIP header; if present, return remainder of
         gzipped content.
+
+        IndexError is raised if there isn't a full header yet; its second argument is how much of
+        the content needs to be kept.
         """
         # adapted from gzip.py
         gz_flags = {"FTEXT": 1, "FHCRC": 2, "FEXTRA": 4, "FNAME": 8, "FCOMMENT": 16}
         if len(content) < 10:
-            raise IndexError("Header not complete yet")
+            raise IndexError("Header not complete yet", len(content))
         magic = content[:2]
         if magic != b"\037\213":
             raise IOError(
@@ -209,37 +214,31 @@ class GzipProcessor:
 
         if flag & gz_flags["FEXTRA"]:
             if len(content) < offset + 2:
-                raise IndexError("Header not complete yet")
+                raise IndexError("Header not complete yet", len(content))
             # Read & discard the extra field, if present
             xlen = content[offset] + 256 * content[offset + 1]
             offset += 2
             if len(content) < offset + xlen:
-                raise IndexError("Header not complete yet")
+                raise IndexError("Header not complete yet", len(content))
             offset += xlen
 
         if flag & gz_flags["FNAME"]:
             # Read and discard a null-terminated string
-            while True:
-                if len(content) <= offset:
-                    raise IndexError("Header not complete yet")
-                st1 = content[offset]
-                offset += 1
-                if st1 == 0:
-                    break
+            end = content.find(b"\x00", offset)
+            if end == -1:
+                raise IndexError("Header not complete yet", offset)
+            offset = end + 1
 
         if flag & gz_flags["FCOMMENT"]:
             # Read and discard a null-terminated string
-            while True:
-                if len(content) <= offset:
-                    raise IndexError("Header not complete yet")
-                st2 = content[offset]
-                offset += 1
-                if st2 == 0:
-                    break
+            end = content.find(b"\x00", offset)
+            if end == -1:
+                raise IndexError("Header not complete yet", offset)
+            offset = end + 1
 
         if flag & gz_flags["FHCRC"]:
             if len(content) < offset + 2:
-                raise IndexError("Header not complete yet")
+                raise IndexError("Header not complete yet", len(content))
             offset += 2
 
         return content[offset:]
-- 
2.43.0


From 6767a6568e80ee722a5b7677345d3458880d0654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:42 +0000
Subject: [PATCH 084/123] fix: any number of content codings can be decoded

---
 httplint/content_encoding.py | 73 +++++++++++++++++++-----------------
 1 file changed, 38 insertions(+), 35 deletions(-)

diff --git a/httplint/content_encoding.py b/httplint/content_encoding.py
index 0ebdc11..ef061ce 100644
--- a/httplint/content_encoding.py
+++ b/httplint/content_encoding.py
@@ -2,7 +2,7 @@ import binascii
 import hashlib
 import weakref
 import zlib
-from typing import Any, Callable, Dict, Iterator, List, Optional
+from typing import Any, Callable, Dict, Generator, Iterator, List, Optional
 
 import brotli
 
@@ -35,43 +35,48 @@ class ContentEncodingProcessor:
         self.decode_ok: bool = True
 
         # Pipeline is built lazily to ensure headers are parsed
-        self.pipeline: Optional[Callable[[bytes], None]] = None
+        self.pipeline: Optional[List[Callable[[bytes], Iterator[bytes]]]] = None
 
     def feed_content(self, chunk: bytes) -> None:
         if self.decode_ok:
             if self.pipeline is None:
                 self._build_pipeline()
-            if self.pipeline:
-                self.pipeline(chunk)
+            if self.pipeline is not None:
+                self._run_pipeline(self.pipeline, chunk)
 
     def finish_content(self) -> None:
         self.hash = self._hash_processor.digest()
 
     def _build_pipeline(self) -> None:
-        # Build the pipeline
-        # The sink handles the final decoded content
-        # Use weakref to avoid cycle: self -> pipeline -> processor -> self._sink_process -> self
-        self_ref = weakref.ref(self)
-
-        def sink(chunk: bytes) -> None:
-            obj = self_ref()
-            if obj:
-                obj._sink_process(chunk)  # pylint: disable=protected-access
-
-        self.pipeline = sink
-
+        # Build the pipeline: codings are listed in the order they were applied, so they're
+        # decoded in the opposite one.
+        self.pipeline = []
         content_codings = self.message.headers.parsed.get("content-encoding", [])
-
-        # Iterate forward regarding processing order.
-
-        for coding in content_codings:
+        for coding in reversed(content_codings):
             if coding in ["gzip", "x-gzip"]:
-                self.pipeline = GzipProcessor(self.message, self.pipeline)
+                self.pipeline.append(GzipProcessor(self.message))
             elif coding == "br":
-                self.pipeline = BrotliProcessor(self.message, self.pipeline)
+                self.pipeline.append(BrotliProcessor(self.message))
             else:
                 pass
 
+    def _run_pipeline(
+        self, pipeline: List[Callable[[bytes], Iterator[bytes]]], chunk: bytes
+    ) -> None:
+        """
+        Decode a chunk. What a processor produces is decoded by those after it before it's asked
+        for more; this doesn't recurse, because there can be any number of them.
+        """
+        stack = [iter([chunk])]
+        while stack:
+            data = next(stack[-1], None)
+            if data is None:
+                stack.pop()
+            elif len(stack) > len(pipeline):
+                self._sink_process(data)
+            else:
+                stack.append(pipeline[len(stack) - 1](data))
+
     def _sink_process(self, chunk: bytes) -> None:
         self._hash_processor.update(chunk)
         self.length += len(chunk)
@@ -87,9 +92,8 @@ class ContentEncodingProcessor:
 
 
 class GzipProcessor:
-    def __init__(self, message: LinterProtocol, next_processor: Callable[[bytes], None]) -> None:
+    def __init__(self, message: LinterProtocol) -> None:
         self.message = message
-        self.next_processor = next_processor
         self._gzip_processor = zlib.decompressobj(-zlib.MAX_WBITS)
         self._in_gzip = False
         self._gzip_header_buffer = b""
@@ -98,17 +102,18 @@ class GzipProcessor:
         self._decompressed = 0
         self.ok = True
 
-    def __call__(self, chunk: bytes) -> None:
+    def __call__(self, chunk: bytes) -> Iterator[bytes]:
         # RFC1952 Section 2.2: there can be more than one member
         piece_size = 64 * 1024  # avoids copying a large chunk for each of many small members
         for start in range(0, len(chunk), piece_size):
             piece = chunk[start : start + piece_size]
             while piece and self.ok:
-                piece = self._process_member(piece)
+                piece = yield from self._process_member(piece)
 
-    def _process_member(self, chunk: bytes) -> bytes:
+    def _process_member(self, chunk: bytes) -> Generator[bytes, None, bytes]:
         """
-        Process a chunk of a gzip member; returns what follows the member, if anything.
+        Process a chunk of a gzip member, yielding its decoded data; returns what follows the
+        member, if anything.
         """
         if self._footer_left:
             footer = chunk[: self._footer_left]
@@ -151,7 +156,7 @@ class GzipProcessor:
                     self.message.notes.add("field-content-encoding", DECOMPRESSION_LIMIT)
                     self.ok = False
                     return b""
-                self.next_processor(decompressed)
+                yield decompressed
 
             while self._gzip_processor.unconsumed_tail:
                 tail = self._gzip_processor.unconsumed_tail
@@ -162,7 +167,7 @@ class GzipProcessor:
                         self.message.notes.add("field-content-encoding", DECOMPRESSION_LIMIT)
                         self.ok = False
                         return b""
-                    self.next_processor(decompressed)
+                    yield decompressed
                 else:
                     break
 
@@ -245,14 +250,13 @@ class GzipProcessor:
 
 
 class BrotliProcessor:
-    def __init__(self, message: LinterProtocol, next_processor: Callable[[bytes], None]) -> None:
+    def __init__(self, message: LinterProtocol) -> None:
         self.message = message
-        self.next_processor = next_processor
         self._brotli_processor = brotli.Decompressor()
         self._decompressed = 0
         self.ok = True
 
-    def __call__(self, chunk: bytes) -> None:
+    def __call__(self, chunk: bytes) -> Iterator[bytes]:
         if not self.ok:
             return
 
@@ -263,7 +267,7 @@ class BrotliProcessor:
                     self.message.notes.add("field-content-encoding", DECOMPRESSION_LIMIT)
                     self.ok = False
                     return
-                self.next_processor(decompressed)
+                yield decompressed
         except brotli.error as brotli_error:
             self.message.notes.add(
                 "field-content-encoding",
@@ -274,7 +278,6 @@ class BrotliProcessor:
             )
             self.ok = False
 
-
     def _decompress(self, chunk: bytes) -> Iterator[bytes]:
         """
         Decompress a chunk piece by piece, where the brotli library supports that, so that a
-- 
2.43.0


From f7130171f098f22296e2a52e1cc5ae21e0c199f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:19 +0000
Subject: [PATCH 085/123] fix: Range syntax doesn't backtrack exponentially

---
 httplint/syntax/rfc9110.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/httplint/syntax/rfc9110.py b/httplint/syntax/rfc9110.py
index 3b87283..5ade648 100644
--- a/httplint/syntax/rfc9110.py
+++ b/httplint/syntax/rfc9110.py
@@ -525,7 +525,9 @@ other_range = r"(?: [\x21-\x2B] | [\x2D-\x7E] )+"
 
 #   range-spec = int-range / suffix-range / other-range
 
-range_spec = rf"(?: {int_range} | {suffix_range} | {other_range} )"
+# (other-range matches everything that the others do; using it alone means that there's only one
+#  way to match each range-spec in a set)
+range_spec = other_range
 
 #   range-set = range-spec *( OWS "," OWS range-spec )
 
-- 
2.43.0


From 19ba4d54824e5c684d0b06c4dfcaae1867d93959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:40 +0000
Subject: [PATCH 086/123] fix: pre-check and post-check in a request aren't
 explained as if they're in a response

---
 httplint/field/parsers/cache_control.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/httplint/field/parsers/cache_control.py b/httplint/field/parsers/cache_control.py
index 930e530..a4d92bb 100644
--- a/httplint/field/parsers/cache_control.py
+++ b/httplint/field/parsers/cache_control.py
@@ -179,8 +179,10 @@ ignoring it there."""
             if directive in KNOWN_CC and cc_list.count(directive) > 1:
                 add_note(CC_DUP, directive=directive)
 
-        # pre-check / post-check
-        if "pre-check" in cc_list or "post-check" in cc_list:
+        # pre-check / post-check; only in responses
+        if self.message.message_type == "response" and (
+            "pre-check" in cc_list or "post-check" in cc_list
+        ):
             if "pre-check" not in cc_list or "post-check" not in cc_list:
                 add_note(CHECK_SINGLE)
             else:
-- 
2.43.0


From 7458b1b8dbe58d6d870ae67991f1873485f2111d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:47 +0000
Subject: [PATCH 087/123] fix: no-cache with field names doesn't override other
 directives

---
 httplint/field/parsers/cache_control.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/httplint/field/parsers/cache_control.py b/httplint/field/parsers/cache_control.py
index a4d92bb..18c1732 100644
--- a/httplint/field/parsers/cache_control.py
+++ b/httplint/field/parsers/cache_control.py
@@ -142,6 +142,8 @@ ignoring it there."""
         # conflicting directives; all in responses
         if self.message.message_type == "response":
             for directive, potential_conflicts in CONFLICTING_CC:
+                if directive == "no-cache" and (directive, None) not in self.value:
+                    continue  # it only applies to the fields that it names
                 if directive in cc_list:
                     conflicts = [d for d in potential_conflicts if d in cc_list]
                     if len(conflicts) > 0:
-- 
2.43.0


From 4eb11496733a494a1ce399be0fadaef778c9f07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:08 +0000
Subject: [PATCH 088/123] fix: IRIs with user information or an IPv6 address
 are converted to URIs

---
 httplint/util.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/httplint/util.py b/httplint/util.py
index 092f5e7..24ded43 100644
--- a/httplint/util.py
+++ b/httplint/util.py
@@ -14,12 +14,16 @@ from httplint.note import MarkdownSafe
 def iri_to_uri(iri: str) -> str:
     "Takes a string that can contain an IRI and return a URI."
     scheme, authority, path, query, frag = urlsplit(iri)
-    if ":" in authority:
-        host, port = authority.split(":", 1)
-        authority = host.encode("idna").decode("ascii") + f":{port}"
-    else:
-        authority = authority.encode("idna").decode("ascii")
     sub_delims = "!$&'()*+,;="
+    userinfo, at_sign, host = authority.rpartition("@")
+    userinfo = urlquote(userinfo, safe="-._~" + sub_delims + ":%")
+    port = ""
+    if ":" in host and not host.endswith("]"):
+        host, port = host.rsplit(":", 1)
+        port = f":{port}"
+    if not host.startswith("["):  # an IP literal
+        host = host.encode("idna").decode("ascii")
+    authority = f"{userinfo}{at_sign}{host}{port}"
     pchar = "-.+~" + sub_delims + ":@" + "%"
     path = urlquote(path, safe=pchar + "/")
     quer = urlquote(query, safe=pchar + "/?")
-- 
2.43.0


From ec7958f6ad8aff6e53b7259b07954ce46c6fc7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:17 +0000
Subject: [PATCH 089/123] fix: Referer's origin is compared without regard to
 case, user information and default ports

---
 httplint/field/parsers/referer.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/httplint/field/parsers/referer.py b/httplint/field/parsers/referer.py
index 8cf8a48..896b2ac 100644
--- a/httplint/field/parsers/referer.py
+++ b/httplint/field/parsers/referer.py
@@ -1,4 +1,5 @@
-from urllib.parse import urlparse
+from typing import Optional, Tuple
+from urllib.parse import ParseResult, urlparse
 
 from httplint.field.singleton_field import SingletonField
 from httplint.field.tests import FieldTest
@@ -9,6 +10,8 @@ from httplint.types import (
     RequestLinterProtocol,
 )
 
+DEFAULT_PORTS = {"http": 80, "https": 443, "ws": 80, "wss": 443}
+
 
 class referer(SingletonField[RequestLinterProtocol]):
     canonical_name = "Referer"
@@ -32,6 +35,8 @@ resource from which the target URI was obtained (i.e., the "referrer")."""
         try:
             parsed_referer = urlparse(referer_uri)
             parsed_request = urlparse(request_uri)
+            referer_origin = self._origin(parsed_referer)
+            request_origin = self._origin(parsed_request)
         except ValueError:
             return  # Already handled by URI syntax checks
 
@@ -39,12 +44,15 @@ resource from which the target URI was obtained (i.e., the "referrer")."""
             if parsed_request.scheme.lower() in ["http", "ws"]:
                 add_note(REFERER_SECURE_TO_INSECURE)
 
-            referer_origin = (parsed_referer.scheme, parsed_referer.netloc)
-            request_origin = (parsed_request.scheme, parsed_request.netloc)
-
             if referer_origin != request_origin:
                 add_note(REFERER_SECURE_TO_DIFFERENT_ORIGIN)
 
+    @staticmethod
+    def _origin(uri: ParseResult) -> Tuple[str, Optional[str], Optional[int]]:
+        "The scheme, host and port of a URI."
+        port = uri.port if uri.port is not None else DEFAULT_PORTS.get(uri.scheme)
+        return (uri.scheme, uri.hostname, port)
+
 
 class REFERER_SECURE_TO_INSECURE(Note):
     category = categories.SECURITY
-- 
2.43.0


From 8393c0b014f39ade5300e7f468689bc95b9a67d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:04 +0000
Subject: [PATCH 090/123] fix: an empty query is kept in the URI

---
 httplint/util.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/httplint/util.py b/httplint/util.py
index 24ded43..459db4a 100644
--- a/httplint/util.py
+++ b/httplint/util.py
@@ -28,7 +28,12 @@ def iri_to_uri(iri: str) -> str:
     path = urlquote(path, safe=pchar + "/")
     quer = urlquote(query, safe=pchar + "/?")
     frag = urlquote(frag, safe=pchar + "/?")
-    return urlunsplit((scheme, authority, path, quer, frag))
+    uri = urlunsplit((scheme, authority, path, "", ""))
+    if "?" in iri.partition("#")[0]:  # urlunsplit drops an empty query
+        uri += f"?{quer}"
+    if frag:
+        uri += f"#{frag}"
+    return uri
 
 
 def resolve_url(base_uri: str, url: str) -> Optional[SplitResult]:
-- 
2.43.0


From c04bf6ab4760dfd5491866c34e10eda51023f783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:24 +0000
Subject: [PATCH 091/123] fix: keywords and schemes in CSP are case-insensitive

---
 .../field/parsers/content_security_policy.py    | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/httplint/field/parsers/content_security_policy.py b/httplint/field/parsers/content_security_policy.py
index 5f39886..4b4b0d9 100644
--- a/httplint/field/parsers/content_security_policy.py
+++ b/httplint/field/parsers/content_security_policy.py
@@ -92,19 +92,20 @@ sources of content that browsers are allowed to load on a page."""
                 if name == "report-uri":
                     deprecated_report_uri = True
 
+                # Keywords and schemes are case-insensitive
+                sources = value.lower().split()
+
                 if name in ["script-src", "style-src", "object-src"]:
-                    if "*" in value.split():
+                    if "*" in sources:
                         wide_open_directives.append(name)
 
-                if "'unsafe-inline'" in value:
+                if "'unsafe-inline'" in sources:
                     unsafe_inline_directives.append(name)
-                if "'unsafe-eval'" in value:
+                if "'unsafe-eval'" in sources:
                     unsafe_eval_directives.append(name)
-                # Check for http: scheme or literal http://
-                if "http:" in value or "http://" in value:
-                    # Simple check, could be improved to parse source lists
-                    if "http:" in value.split():
-                        http_uri_directives.append(name)
+                # Simple check, could be improved to parse source lists
+                if "http:" in sources:
+                    http_uri_directives.append(name)
 
         if deprecated_report_uri:
             parent.add_child(
-- 
2.43.0


From 5a02560ccfad760ac2d9090cb5367675bac0f2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:32 +0000
Subject: [PATCH 092/123] fix: an origin that contains DENY or SAMEORIGIN isn't
 that X-Frame-Options value

---
 httplint/field/parsers/x_frame_options.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/httplint/field/parsers/x_frame_options.py b/httplint/field/parsers/x_frame_options.py
index 194a7ec..80198c0 100644
--- a/httplint/field/parsers/x_frame_options.py
+++ b/httplint/field/parsers/x_frame_options.py
@@ -38,9 +38,10 @@ the transmitted content in frames that are part of other web pages.
         return field_value.upper()
 
     def evaluate(self, add_note: AddNoteMethodType) -> None:
-        if "DENY" in self.value:
+        values = [value.strip(" \t") for value in self.value.split(",")]
+        if "DENY" in values:
             add_note(FRAME_OPTIONS_DENY)
-        elif "SAMEORIGIN" in self.value:
+        elif "SAMEORIGIN" in values:
             add_note(FRAME_OPTIONS_SAMEORIGIN)
         else:
             add_note(FRAME_OPTIONS_UNKNOWN)
-- 
2.43.0


From 88c4a254669c71fa0e224d6144933d26509d3a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:40 +0000
Subject: [PATCH 093/123] fix: nosniff is case-insensitive in
 X-Content-Type-Options

---
 httplint/field/parsers/x_content_type_options.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/field/parsers/x_content_type_options.py b/httplint/field/parsers/x_content_type_options.py
index bc0c43d..c8c9837 100644
--- a/httplint/field/parsers/x_content_type_options.py
+++ b/httplint/field/parsers/x_content_type_options.py
@@ -15,7 +15,7 @@ Indicates that the client should not 'sniff' the `Content-Type` of the message f
     deprecated = False
 
     def evaluate(self, add_note: AddNoteMethodType) -> None:
-        if "nosniff" in self.value:
+        if "nosniff" in [value.lower() for value in self.value]:
             add_note(CONTENT_TYPE_OPTIONS)
         else:
             add_note(CONTENT_TYPE_OPTIONS_UNKNOWN)
-- 
2.43.0


From e81aba77507e04ffe1e1c4d9feceb1eb3e3d0999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:47 +0000
Subject: [PATCH 094/123] fix: a Clear-Site-Data value is in effect even if
 it's also there without quotes

---
 httplint/field/parsers/clear_site_data.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/httplint/field/parsers/clear_site_data.py b/httplint/field/parsers/clear_site_data.py
index 21198c8..a251686 100644
--- a/httplint/field/parsers/clear_site_data.py
+++ b/httplint/field/parsers/clear_site_data.py
@@ -24,11 +24,14 @@ origin."""
 
     def __init__(self, wire_name: str, message: ResponseLinterProtocol) -> None:
         super().__init__(wire_name, message)
+        self._quoted_values: list[str] = []
         self._unquoted_values: list[str] = []
 
     def parse(self, field_value: str, add_note: AddNoteMethodType) -> str:
         if len(field_value) >= 2 and field_value[0] == '"' and field_value[-1] == '"':
             value = field_value[1:-1]
+            if value in self.KNOWN_VALUES:
+                self._quoted_values.append(value)
         else:
             value = field_value
             if value in self.KNOWN_VALUES:
@@ -51,9 +54,11 @@ origin."""
         if not self.value:
             add_note(CSD_EMPTY)
             return
-        valid = [v for v in self.value if v in self.KNOWN_VALUES and v not in self._unquoted_values]
-        if valid:
-            add_note(CSD_PRESENT, values=MarkdownSafe(", ".join(map(markdown_code, valid))))
+        if self._quoted_values:
+            add_note(
+                CSD_PRESENT,
+                values=MarkdownSafe(", ".join(map(markdown_code, self._quoted_values))),
+            )
 
 
 class CSD_PRESENT(Note):
-- 
2.43.0


From 635bedeb955fc85627ee8659c535e6fa3a10612f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:54 +0000
Subject: [PATCH 095/123] fix: empty HSTS directives aren't duplicates of each
 other

---
 httplint/field/parsers/strict_transport_security.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/httplint/field/parsers/strict_transport_security.py b/httplint/field/parsers/strict_transport_security.py
index b229994..0d68ff1 100644
--- a/httplint/field/parsers/strict_transport_security.py
+++ b/httplint/field/parsers/strict_transport_security.py
@@ -44,6 +44,8 @@ browsers that it should only be communicated with using HTTPS, instead of using
 
         seen_directives = set()
         for directive in directives:
+            if not directive:  # RFC 6797 Section 6.1 allows empty directives
+                continue
             parts = directive.split("=", 1)
             name = parts[0].strip(" \t").lower()
             value = parts[1].strip(" \t") if len(parts) > 1 else None
-- 
2.43.0


From 9279e578487183b7452b1c6fe195708a0a20cf75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:04 +0000
Subject: [PATCH 096/123] fix: NaN and Infinity aren't JSON

---
 httplint/field/json_field.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/httplint/field/json_field.py b/httplint/field/json_field.py
index c72beeb..ff8b49c 100644
--- a/httplint/field/json_field.py
+++ b/httplint/field/json_field.py
@@ -1,11 +1,15 @@
 import json
-from typing import Generic
+from typing import Any, Generic
 
 from httplint.field import HttpField
 from httplint.note import Note, categories, levels
 from httplint.types import AddNoteMethodType, TMessage
 
 
+def _no_constants(name: str) -> Any:
+    raise ValueError(f"{name} isn't valid JSON")
+
+
 class JsonField(HttpField[TMessage], Generic[TMessage]):
     """
     A HTTP field that uses the JSON encoding for field values.
@@ -24,7 +28,7 @@ class JsonField(HttpField[TMessage], Generic[TMessage]):
 
         combined_value = f"[{', '.join(self.value)}]"
         try:
-            self.value = json.loads(combined_value)
+            self.value = json.loads(combined_value, parse_constant=_no_constants)
         except (ValueError, RecursionError) as why:
             add_note(BAD_JSON, error=str(why), category=self.category)
             self.value = None
-- 
2.43.0


From badb83efcdb0a7ac8cdcd238a382863130c4117a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:22 +0000
Subject: [PATCH 097/123] fix: a false boolean parameter in Cache-Status
 doesn't stop linting

---
 httplint/field/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/httplint/field/utils.py b/httplint/field/utils.py
index ab396aa..2f2ffba 100644
--- a/httplint/field/utils.py
+++ b/httplint/field/utils.py
@@ -306,6 +306,10 @@ def check_sf_params(
             elif "desc" in known_params[param_name]:
                 if param_value is True:
                     param_list.append(f"* {known_params[param_name]['desc']}")
+                elif param_value is False:  # the description is of when it's true
+                    param_list.append(
+                        f"* {markdown_code(param_name)}: {markdown_code(param_value)}"
+                    )
                 else:
                     desc = known_params[param_name]["desc"].replace("`%s`", "%s")
                     param_list.append(f"* {desc % markdown_code(param_value)}")
-- 
2.43.0


From 893a7fcfb123d7284a0162f66d2c60e3761336b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:29 +0000
Subject: [PATCH 098/123] fix: a boolean isn't a number in Cache-Status and
 Proxy-Status

---
 httplint/field/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/httplint/field/utils.py b/httplint/field/utils.py
index 2f2ffba..dea6cd1 100644
--- a/httplint/field/utils.py
+++ b/httplint/field/utils.py
@@ -276,7 +276,10 @@ def check_sf_params(
             param_list.append(f"* {markdown_code(param_name)}: {markdown_code(param_value)}")
         else:
             expected_type = known_params[param_name].get("type")
-            if expected_type and not isinstance(param_value, expected_type):
+            if expected_type and (
+                not isinstance(param_value, expected_type)
+                or (isinstance(param_value, bool) and expected_type is not bool)
+            ):
                 add_note(
                     bad_param_val_note,
                     param=param_name,
-- 
2.43.0


From 5e7458f71d2708e52853479067096429062895b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:36 +0000
Subject: [PATCH 099/123] fix: next-protocol in Proxy-Status can be a Byte
 Sequence

---
 httplint/field/parsers/proxy_status.py | 2 +-
 httplint/field/utils.py                | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/httplint/field/parsers/proxy_status.py b/httplint/field/parsers/proxy_status.py
index c89823c..111c74e 100644
--- a/httplint/field/parsers/proxy_status.py
+++ b/httplint/field/parsers/proxy_status.py
@@ -104,7 +104,7 @@ KNOWN_PARAMS: Dict[str, Dict[str, Any]] = {
         },
     },
     "next-hop": {"type": (Token, str), "desc": "The next hop was `%s`."},
-    "next-protocol": {"type": Token, "desc": "The next protocol was `%s`."},
+    "next-protocol": {"type": (Token, bytes), "desc": "The next protocol was `%s`."},
     "received-status": {"type": int, "desc": "The received status code was %s."},
     "details": {"type": (Token, str), "desc": "Additional details: %s"},
 }
diff --git a/httplint/field/utils.py b/httplint/field/utils.py
index dea6cd1..92fd110 100644
--- a/httplint/field/utils.py
+++ b/httplint/field/utils.py
@@ -314,6 +314,8 @@ def check_sf_params(
                         f"* {markdown_code(param_name)}: {markdown_code(param_value)}"
                     )
                 else:
+                    if isinstance(param_value, bytes):
+                        param_value = param_value.decode("ascii", "replace")
                     desc = known_params[param_name]["desc"].replace("`%s`", "%s")
                     param_list.append(f"* {desc % markdown_code(param_value)}")
             else:
-- 
2.43.0


From a1700a9137d662f251840347b6d1e5ddfe8c21e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:44 +0000
Subject: [PATCH 100/123] fix: the types of Use-As-Dictionary members are those
 in RFC 9842

---
 httplint/field/parsers/use_as_dictionary.py | 36 ++++++++-------------
 1 file changed, 14 insertions(+), 22 deletions(-)

diff --git a/httplint/field/parsers/use_as_dictionary.py b/httplint/field/parsers/use_as_dictionary.py
index abd8ed5..ae74633 100644
--- a/httplint/field/parsers/use_as_dictionary.py
+++ b/httplint/field/parsers/use_as_dictionary.py
@@ -1,4 +1,6 @@
-from typing import Any, List, Union
+from typing import Any
+
+from http_sf import Token
 
 from httplint.field.structured_field import StructuredField
 from httplint.field.tests import FieldTest
@@ -26,7 +28,7 @@ as a compression dictionary for future requests."""
     def evaluate(self, add_note: AddNoteMethodType) -> None:
         for key, val in self.value.items():
             if key == "match":
-                self._check_value_type(val, str, add_note)
+                self._check_value_type(key, val, str, add_note)
             elif key == "match-dest":
                 # Can be a String or Inner List of Strings
                 is_valid = False
@@ -41,37 +43,27 @@ as a compression dictionary for future requests."""
                     add_note(USE_AS_DICTIONARY_BAD_MATCH_DEST, got=type(val[0]).__name__)
 
             elif key == "id":
-                self._check_value_type(val, str, add_note)
+                self._check_value_type(key, val, str, add_note)
             elif key == "type":
-                self._check_value_type(val, str, add_note)
+                self._check_value_type(key, val, Token, add_note)
             elif key == "ttl":
-                self._check_value_type(val, int, add_note)
+                self._check_value_type(key, val, int, add_note)
 
     def _check_value_type(
         self,
-        val: Union[tuple[Any, Any], List[Any]],
+        key: str,
+        val: tuple[Any, Any],
         expected_type: type,
         add_note: AddNoteMethodType,
     ) -> None:
-        # val is (value, params) or list of (value, params) for Inner List
-        # Dictionary values are Items or Inner Lists.
-        # If expected type is simple (str, int), we assume it's an Item.
-        if isinstance(val, list):
-            # Inner List found where simple Item expected
-            add_note(
-                USE_AS_DICTIONARY_BAD_TYPE,
-                param=val,
-                expected=expected_type.__name__,
-                got="Inner List",
-            )
-            return
-
-        if not isinstance(val[0], expected_type):
+        # val is (value, params); the value is a list for an Inner List
+        # Booleans are Python integers, but not Structured Fields ones.
+        if not isinstance(val[0], expected_type) or isinstance(val[0], bool):
             add_note(
                 USE_AS_DICTIONARY_BAD_TYPE,
-                param=val[0],
+                param=key,
                 expected=expected_type.__name__,
-                got=type(val[0]).__name__,
+                got="Inner List" if isinstance(val[0], list) else type(val[0]).__name__,
             )
 
 
-- 
2.43.0


From ea172743a3c4fe2c753d6b94f7489dff6ce3b51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:52 +0000
Subject: [PATCH 101/123] fix: dur in Server-Timing isn't just any text that
 Python reads as a number

---
 httplint/field/parsers/server_timing.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/httplint/field/parsers/server_timing.py b/httplint/field/parsers/server_timing.py
index a36a24c..2bc43c2 100644
--- a/httplint/field/parsers/server_timing.py
+++ b/httplint/field/parsers/server_timing.py
@@ -1,3 +1,4 @@
+import re
 from typing import Tuple
 
 from httplint.field.list_field import HttpListField
@@ -13,6 +14,10 @@ from httplint.types import (
 )
 
 
+# what float() takes, without the likes of "nan" and "1_000"
+NUMBER = r"^[-+]?(?:[0-9]+\.?[0-9]*|\.[0-9]+)(?:[eE][-+]?[0-9]+)?\Z"
+
+
 class server_timing(HttpListField[ResponseLinterProtocol]):
     canonical_name = "Server-Timing"
     description = """\
@@ -43,9 +48,7 @@ consumer of Server-Timing."""
             if duration is None:
                 add_note(SERVER_TIMING_MISSING_DUR, metric=metric_name)
             else:
-                try:
-                    float(duration)
-                except ValueError:
+                if not re.match(NUMBER, duration):
                     add_note(
                         SERVER_TIMING_BAD_PARAM,
                         metric=metric_name,
-- 
2.43.0


From 9fdc8a814b8c2fbb3f36628c4c12aadbd4fc47b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:30 +0000
Subject: [PATCH 102/123] fix: a note without detail doesn't show the
 catalogue's metadata when it's translated

---
 httplint/i18n.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/i18n.py b/httplint/i18n.py
index 0f39d30..f19a3f2 100644
--- a/httplint/i18n.py
+++ b/httplint/i18n.py
@@ -37,7 +37,7 @@ def translate(message: str) -> str:
     Translate a message.
     """
     translations = get_translations()
-    if translations:
+    if translations and message:  # the translation of "" is the catalogue's metadata
         return translations.gettext(message)
     return message
 
-- 
2.43.0


From dcfac826b077738aa152c86e71c995f2035e7e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:43 +0000
Subject: [PATCH 103/123] fix: a coding that Accept-Encoding accepts with * is
 wanted, and one with a weight of zero isn't

---
 httplint/field/parsers/content_encoding.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/httplint/field/parsers/content_encoding.py b/httplint/field/parsers/content_encoding.py
index c6b685d..9f541bc 100644
--- a/httplint/field/parsers/content_encoding.py
+++ b/httplint/field/parsers/content_encoding.py
@@ -1,3 +1,4 @@
+import re
 from types import SimpleNamespace
 from typing import cast
 
@@ -36,10 +37,10 @@ of its underlying media type; e.g., `gzip` and `deflate`."""
             and response.request
             and response.request.message_type == "request"
         ):
-            accept_encoding = [
-                a[0] for a in response.request.headers.parsed.get("accept-encoding", [])
-            ]
-            if field_value.lower() not in accept_encoding:
+            accept_encoding = dict(response.request.headers.parsed.get("accept-encoding", []))
+            params = accept_encoding.get(field_value.lower(), accept_encoding.get("*", None))
+            # a weight of zero means that it's not acceptable
+            if params is None or re.match(r"0(?:\.0{0,3})?\Z", params.get("q", None) or ""):
                 add_note(ENCODING_UNWANTED, coding=field_value)
         return field_value.lower()
 
-- 
2.43.0


From b1c8c64c64bead134076afe20e8b60e355600ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:48 +0000
Subject: [PATCH 104/123] fix: backslashes in an ETag aren't escapes

---
 httplint/field/parsers/etag.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/httplint/field/parsers/etag.py b/httplint/field/parsers/etag.py
index 8826ae4..05da5a6 100644
--- a/httplint/field/parsers/etag.py
+++ b/httplint/field/parsers/etag.py
@@ -3,7 +3,6 @@ from typing import Tuple
 from httplint.field import BAD_SYNTAX
 from httplint.field.singleton_field import SingletonField
 from httplint.field.tests import FieldTest
-from httplint.field.utils import unquote_string
 from httplint.note import categories
 from httplint.syntax import rfc9110
 from httplint.types import (
@@ -24,8 +23,15 @@ The `ETag` header provides an opaque identifier for the representation."""
 
     def parse(self, field_value: str, add_note: AddNoteMethodType) -> Tuple[bool, str]:
         if field_value[:2] == "W/":
-            return (True, unquote_string(field_value[2:]))
-        return (False, unquote_string(field_value))
+            return (True, self.opaque_tag(field_value[2:]))
+        return (False, self.opaque_tag(field_value))
+
+    @staticmethod
+    def opaque_tag(value: str) -> str:
+        "Remove the quotes; unlike in a quoted-string, a backslash isn't special."
+        if len(value) > 1 and value[0] == value[-1] == '"':
+            return value[1:-1]
+        return value
 
 
 class ETagTest(FieldTest[AnyMessageLinterProtocol]):
-- 
2.43.0


From 6ed3ebb202665dfb9aadf98d53485784657f7b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:23 +0000
Subject: [PATCH 105/123] fix: ASCII host names with empty or long labels
 aren't bad URI syntax

---
 httplint/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/util.py b/httplint/util.py
index 459db4a..4860d7a 100644
--- a/httplint/util.py
+++ b/httplint/util.py
@@ -21,7 +21,7 @@ def iri_to_uri(iri: str) -> str:
     if ":" in host and not host.endswith("]"):
         host, port = host.rsplit(":", 1)
         port = f":{port}"
-    if not host.startswith("["):  # an IP literal
+    if not host.isascii() and not host.startswith("["):  # an IP literal
         host = host.encode("idna").decode("ascii")
     authority = f"{userinfo}{at_sign}{host}{port}"
     pchar = "-.+~" + sub_delims + ":@" + "%"
-- 
2.43.0


From 1a2bb0f391f44b7dade328a4c84893f7257e7b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:26 +0000
Subject: [PATCH 106/123] fix: put what's missing for a CSP in trailers under
 its own note

---
 .../field/parsers/content_security_policy.py  | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/httplint/field/parsers/content_security_policy.py b/httplint/field/parsers/content_security_policy.py
index 4b4b0d9..08d8ca2 100644
--- a/httplint/field/parsers/content_security_policy.py
+++ b/httplint/field/parsers/content_security_policy.py
@@ -1,4 +1,4 @@
-from typing import Dict, List
+from typing import Dict, List, Optional
 
 from httplint.field.list_field import HttpListField
 from httplint.field.tests import FieldTest
@@ -37,6 +37,7 @@ sources of content that browsers are allowed to load on a page."""
     def __init__(self, wire_name: str, message: ResponseLinterProtocol) -> None:
         super().__init__(wire_name, message)
         self._deferred_notes: List[NoteArgsType] = []
+        self._parent_note: Optional[Note] = None
 
     def parse(self, field_value: str, add_note: AddNoteMethodType) -> Dict[str, str]:
         parsed_directives: Dict[str, str] = {}
@@ -70,7 +71,7 @@ sources of content that browsers are allowed to load on a page."""
 
     def evaluate(self, add_note: AddNoteMethodType) -> None:
         if self.value:
-            parent = add_note(
+            parent = self._parent_note = add_note(
                 CONTENT_SECURITY_POLICY,
                 report_only=self.report_only_string,
                 report_only_text=self.report_only_text,
@@ -155,18 +156,8 @@ sources of content that browsers are allowed to load on a page."""
                 if value in known_endpoints:
                     continue
 
-                # Find this field's parent note
-                parent_note = None
-                for note in self.message.notes:
-                    if (
-                        isinstance(note, CONTENT_SECURITY_POLICY)
-                        and note.vars["field_name"] == self.canonical_name
-                    ):
-                        parent_note = note
-                        break
-
-                if parent_note:
-                    parent_note.add_child(
+                if self._parent_note:
+                    self._parent_note.add_child(
                         CSP_REPORT_TO_MISSING,
                         endpoint=value,
                         report_only_text=self.report_only_text,
-- 
2.43.0


From 05bc0191557449288c171aaf7c17f1a9e2e42f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:55 +0000
Subject: [PATCH 107/123] fix: extract the text of all Notes and the
 descriptions of all fields for translation

---
 tools/i18n/extractors.py | 21 +++++----------------
 1 file changed, 5 insertions(+), 16 deletions(-)

diff --git a/tools/i18n/extractors.py b/tools/i18n/extractors.py
index 465054b..9989e27 100644
--- a/tools/i18n/extractors.py
+++ b/tools/i18n/extractors.py
@@ -7,10 +7,10 @@ def extract_notes(
     fileobj, keywords, comment_tags, options
 ) -> Iterator[Tuple[int, str, List[str], List[str]]]:
     """
-    Extract messages from Note subclasses in Python source code.
+    Extract messages from Note and HttpField subclasses in Python source code.
 
-    This looks for classes that inherit from 'Note' or 'HttpField' (or have them in their bases)
-    and extracts the strings assigned to '_summary', '_text', or 'description'.
+    This looks for classes that inherit from another (such as 'Note', 'HttpField' or a subclass of
+    them) and extracts the strings assigned to '_summary', '_text', or 'description'.
 
     It also delegates to the standard Python extractor to find other messages.
     """
@@ -20,19 +20,8 @@ def extract_notes(
 
     for node in ast.walk(tree):
         if isinstance(node, ast.ClassDef):
-            # Check if class inherits from Note or HttpField (simple check)
-            is_target = False
-            for base in node.bases:
-                if isinstance(base, ast.Name) and base.id in ["Note", "HttpField"]:
-                    is_target = True
-                    break
-                # Handle module.Note or module.HttpField
-                if isinstance(base, ast.Attribute) and base.attr in [
-                    "Note",
-                    "HttpField",
-                ]:
-                    is_target = True
-                    break
+            # Look in anything that might be a Note or HttpField; most inherit from another subclass.
+            is_target = bool(node.bases)
 
             if is_target:
                 for item in node.body:
-- 
2.43.0


From 6206dfa4b03072594d8bcd8b4a83b3eb79ba77ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:03 +0000
Subject: [PATCH 108/123] fix: check translations of messages with plural
 forms, rather than failing

---
 tools/i18n/check.py | 38 ++++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/tools/i18n/check.py b/tools/i18n/check.py
index 88b40bf..d22b4f3 100755
--- a/tools/i18n/check.py
+++ b/tools/i18n/check.py
@@ -68,31 +68,36 @@ class CatalogChecker:
             if not message.id:
                 continue
 
+            # messages with plural forms have more than one ID and translation
+            ids = message.id if message.pluralizable else (message.id,)
+            strings = message.string if message.pluralizable else (message.string,)
+            message_id = ids[0]
+
             # 1. Check for fuzzy
             if "fuzzy" in message.flags:
                 issues.append(
-                    TranslationIssue(IssueType.FUZZY, message.id, message.lineno)
+                    TranslationIssue(IssueType.FUZZY, message_id, message.lineno)
                 )
 
             # 2. Check for missing
-            if not message.string:
+            if not all(strings):
                 issues.append(
-                    TranslationIssue(IssueType.MISSING, message.id, message.lineno)
+                    TranslationIssue(IssueType.MISSING, message_id, message.lineno)
                 )
                 continue
 
-            # 3. Check variables
-            orig_vars = self.find_variables(message.id)
-            trans_vars = self.find_variables(message.string)
+            # 3. Check variables; the singular of a plural might not have all of them
+            id_vars = [self.find_variables(i) for i in ids]
+            string_vars = [self.find_variables(i) for i in strings]
 
-            missing_vars = orig_vars - trans_vars
-            extra_vars = trans_vars - orig_vars
+            missing_vars = set.intersection(*id_vars) - set.intersection(*string_vars)
+            extra_vars = set.union(*string_vars) - set.union(*id_vars)
 
             if missing_vars:
                 issues.append(
                     TranslationIssue(
                         IssueType.BAD_VARIABLE,
-                        message.id,
+                        message_id,
                         message.lineno,
                         f"Missing: {', '.join(sorted(missing_vars))}",
                     )
@@ -102,20 +107,21 @@ class CatalogChecker:
                 issues.append(
                     TranslationIssue(
                         IssueType.BAD_VARIABLE,
-                        message.id,
+                        message_id,
                         message.lineno,
                         f"Extra: {', '.join(sorted(extra_vars))}",
                     )
                 )
 
             # 4. Check syntax (stray %)
-            valid, error_msg = self.validate_format_string(message.string)
-            if not valid:
-                issues.append(
-                    TranslationIssue(
-                        IssueType.SYNTAX_ERROR, message.id, message.lineno, error_msg
+            for string in strings:
+                valid, error_msg = self.validate_format_string(string)
+                if not valid:
+                    issues.append(
+                        TranslationIssue(
+                            IssueType.SYNTAX_ERROR, message_id, message.lineno, error_msg
+                        )
                     )
-                )
 
         return issues
 
-- 
2.43.0


From 77d487887405b9d25e0d9c40bc458691cc0405cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:08 +0000
Subject: [PATCH 109/123] fix: extract messages with recent versions of Babel

---
 tools/i18n/extractors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/i18n/extractors.py b/tools/i18n/extractors.py
index 9989e27..cb76b70 100644
--- a/tools/i18n/extractors.py
+++ b/tools/i18n/extractors.py
@@ -46,7 +46,7 @@ def extract_notes(
     if isinstance(extra_keywords, str):
         extra_keywords = extra_keywords.split()
 
-    all_keywords = list(keywords) + extra_keywords
+    all_keywords = list(keywords) + list(extra_keywords)  # recent versions of Babel have a dict
 
     # We need to pass a container that supports 'in' to extract_python.
     # A list is fine.
-- 
2.43.0


From cb3a11cb59b7255888d45eda0527bb1a407293ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:43 +0000
Subject: [PATCH 110/123] fix: the # in RFC 5987's character rules isn't a
 comment

---
 httplint/syntax/rfc5987.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/httplint/syntax/rfc5987.py b/httplint/syntax/rfc5987.py
index 6ba605d..dc713c1 100644
--- a/httplint/syntax/rfc5987.py
+++ b/httplint/syntax/rfc5987.py
@@ -34,7 +34,7 @@ pct_encoded = rf"(?: % {HEXDIG} {HEXDIG} )"
 
 attr_char = rf"""(?:
                   {ALPHA} | {DIGIT}
-                | !  | #  | \$ | &  | \+ | -  | \.
+                | !  | \# | \$ | &  | \+ | -  | \.
                 | \^ | _  | `  | \| | ~
 )"""
 
@@ -52,7 +52,7 @@ value_chars = rf"(?: (?: {pct_encoded} | {attr_char} )* )"
 
 mime_charsetc = rf"""(?:
                   {ALPHA} | {DIGIT}
-                | !  | #  | \$ | %  | &
+                | !  | \# | \$ | %  | &
                 | \+ | -  | \^ | _  | `
                 | \{{ | \}} | ~
 )"""
-- 
2.43.0


From 0a26a8fc98ad2b18b86066776a3dc4e09d6c7646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:48 +0000
Subject: [PATCH 111/123] fix: field-content allows characters together

---
 httplint/syntax/rfc9110.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/httplint/syntax/rfc9110.py b/httplint/syntax/rfc9110.py
index 5ade648..077165a 100644
--- a/httplint/syntax/rfc9110.py
+++ b/httplint/syntax/rfc9110.py
@@ -660,11 +660,13 @@ field_vchar = rf"(?: {VCHAR} | {obs_text} )"
 
 #   field-content = field-vchar [ 1*( SP / HTAB / field-vchar ) field-vchar ]
 
-field_content = rf"(?: {field_vchar} (?: (?: {SP} | {HTAB} )+ {field_vchar} )? )"
+field_content = rf"(?: {field_vchar} (?: (?: {SP} | {HTAB} | {field_vchar} )+ {field_vchar} )? )"
 
 #   field-value = *field-content
 
-field_value = rf"(?: {field_content} )*"
+# (written so that there is only one way to match a given value)
+
+field_value = rf"(?: {field_vchar} (?: (?: {SP} | {HTAB} | {field_vchar} )* {field_vchar} )? )?"
 
 #   http-URI = "http://" authority path-abempty [ "?" query ]
 
-- 
2.43.0


From 445a82628f44c1f0ad051ef58da5e4b06eeb5cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:53 +0000
Subject: [PATCH 112/123] fix: the last position of an int-range is optional

---
 httplint/syntax/rfc9110.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/syntax/rfc9110.py b/httplint/syntax/rfc9110.py
index 077165a..c99b99e 100644
--- a/httplint/syntax/rfc9110.py
+++ b/httplint/syntax/rfc9110.py
@@ -507,7 +507,7 @@ Proxy_Authorization = credentials
 
 #   int-range = first-pos "-" [ last-pos ]
 
-int_range = rf"(?: {first_pos} \- {last_pos}? )"
+int_range = rf"(?: {first_pos} \- (?: {last_pos} )? )"
 
 #   suffix-length = 1*DIGIT
 
-- 
2.43.0


From 5394d8449e96df8bf48d8625f36624526e6fe545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:58 +0000
Subject: [PATCH 113/123] fix: chunked-body is made of chunks, with any number
 of extensions

---
 httplint/syntax/rfc9112.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/httplint/syntax/rfc9112.py b/httplint/syntax/rfc9112.py
index df873e6..2fa50b1 100644
--- a/httplint/syntax/rfc9112.py
+++ b/httplint/syntax/rfc9112.py
@@ -51,7 +51,7 @@ chunk_ext_val = rf"(?: {token} | {quoted_string} )"
 
 #   chunk-ext = *( ";" chunk-ext-name [ "=" chunk-ext-val ] )
 
-chunk_ext = rf"(?: \; {chunk_ext_name} (?: \= {chunk_ext_val} )? )"
+chunk_ext = rf"(?: \; {chunk_ext_name} (?: \= {chunk_ext_val} )? )*"
 
 #   chunk-data = 1*OCTET
 
@@ -59,11 +59,11 @@ chunk_data = rf"{OCTET}+"
 
 #   chunk = chunk-size [ chunk-ext ] CRLF chunk-data CRLF
 
-chunk = rf"(?: {chunk_size} (?: {chunk_ext} )? {CRLF} {chunk_data} {CRLF} )"
+chunk = rf"(?: {chunk_size} {chunk_ext} {CRLF} {chunk_data} {CRLF} )"
 
 #   last-chunk = 1*"0" [ chunk-ext ] CRLF
 
-last_chunk = rf"(?: (?: 0 )+ (?: {chunk_ext} )? {CRLF} )"
+last_chunk = rf"(?: (?: 0 )+ {chunk_ext} {CRLF} )"
 
 #   trailer-part = *( header-field CRLF )
 
@@ -71,7 +71,7 @@ trailer_part = rf"(?: {header_field} {CRLF} )*"
 
 #   chunked-body = *chunk last-chunk trailer-part CRLF
 
-chunked_body = rf"(?: (?: chunk )* {last_chunk} {trailer_part} {CRLF} )"
+chunked_body = rf"(?: (?: {chunk} )* {last_chunk} {trailer_part} {CRLF} )"
 
 
 ## Transfer-Encoding
-- 
2.43.0


From 35445b6c6c31ec9f67ad91f70aee1a0d249718b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:02 +0000
Subject: [PATCH 114/123] fix: the dot in HTTP-version is a dot

---
 httplint/syntax/rfc9112.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/syntax/rfc9112.py b/httplint/syntax/rfc9112.py
index 2fa50b1..907f88d 100644
--- a/httplint/syntax/rfc9112.py
+++ b/httplint/syntax/rfc9112.py
@@ -100,7 +100,7 @@ HTTP_name = r"HTTP"
 
 #   HTTP-version = HTTP-name "/" DIGIT "." DIGIT
 
-HTTP_version = rf"{HTTP_name} / {DIGIT} . {DIGIT}"
+HTTP_version = rf"{HTTP_name} / {DIGIT} \. {DIGIT}"
 
 #   method = token
 
-- 
2.43.0


From 467ef728e81e826eb085847ad8669730ce069ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:21 +0000
Subject: [PATCH 115/123] fix: report how much was decompressed before corrupt
 data

---
 httplint/content_encoding.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/httplint/content_encoding.py b/httplint/content_encoding.py
index ef061ce..0ebbada 100644
--- a/httplint/content_encoding.py
+++ b/httplint/content_encoding.py
@@ -176,7 +176,7 @@ class GzipProcessor:
                 "field-content-encoding",
                 BAD_ZLIB,
                 zlib_error=str(zlib_error),
-                ok_zlib_len=f_num(self.message.content_length),
+                ok_zlib_len=f_num(self._decompressed),
                 chunk_sample=display_bytes(chunk),
             )
             self.ok = False
@@ -273,7 +273,7 @@ class BrotliProcessor:
                 "field-content-encoding",
                 BAD_BROTLI,
                 brotli_error=str(brotli_error),
-                ok_brotli_len=f_num(self.message.content_length),
+                ok_brotli_len=f_num(self._decompressed),
                 chunk_sample=display_bytes(chunk),
             )
             self.ok = False
-- 
2.43.0


From 983d528351eb0af95a150dc3eee7d10b29f06779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:37 +0000
Subject: [PATCH 116/123] fix: a request's transfer-codings aren't ones that it
 had to ask for

---
 httplint/field/parsers/transfer_encoding.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/httplint/field/parsers/transfer_encoding.py b/httplint/field/parsers/transfer_encoding.py
index 8505ce5..221139c 100644
--- a/httplint/field/parsers/transfer_encoding.py
+++ b/httplint/field/parsers/transfer_encoding.py
@@ -46,14 +46,11 @@ Transfer codings can only be used in HTTP/1; HTTP/2 and HTTP/3 do not support th
         return coding, param_dict
 
     def evaluate(self, add_note: AddNoteMethodType) -> None:
-        unwanted = {c[0] for c in self.value if c[0] not in ["chunked", "identity"]}
-        if unwanted:
+        unwanted = set()
+        if response := self.message.as_response:
+            unwanted = {c[0] for c in self.value if c[0] not in ["chunked", "identity"]}
             # check to see if the client asked for it
-            if (
-                (response := self.message.as_response)
-                and response.request
-                and response.request.message_type == "request"
-            ):
+            if response.request and response.request.message_type == "request":
                 request = response.request
                 te = [t[0] for t in request.headers.parsed.get("te", [])]
                 unwanted = {c for c in unwanted if c not in te}
-- 
2.43.0


From 39d4df754430b54e9089d3c480770c8cb6050371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:09 +0000
Subject: [PATCH 117/123] fix: UTF-8 with a byte order mark isn't another
 encoding

---
 httplint/charset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/httplint/charset.py b/httplint/charset.py
index 8faca27..48cde89 100644
--- a/httplint/charset.py
+++ b/httplint/charset.py
@@ -143,7 +143,8 @@ def _encodings_compatible(declared: str, detected: str, sample: bytes) -> bool:
         detected_text = sample.decode(detected, errors="strict")
     except (UnicodeError, LookupError):
         return False
-    return declared_text == detected_text
+    # one that's named for its byte order mark (e.g., utf-8-sig) doesn't have it in the text
+    return declared_text.removeprefix("\ufeff") == detected_text.removeprefix("\ufeff")
 
 
 class CHARSET_MISMATCH(Note):
-- 
2.43.0


From 6c3798d297700cfab5d717d192413e43dd5cb878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:44 +0000
Subject: [PATCH 118/123] fix: describe all of Proxy-Status's registered errors

---
 httplint/field/parsers/proxy_status.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/httplint/field/parsers/proxy_status.py b/httplint/field/parsers/proxy_status.py
index 111c74e..30f8221 100644
--- a/httplint/field/parsers/proxy_status.py
+++ b/httplint/field/parsers/proxy_status.py
@@ -87,6 +87,10 @@ KNOWN_PARAMS: Dict[str, Dict[str, Any]] = {
             ): "The proxy received a header section that was too large.",
             Token("http_response_header_size"): "The proxy received a header that was too large.",
             Token("http_response_body_size"): "The proxy received a body that was too large.",
+            Token(
+                "http_response_trailer_section_size"
+            ): "The proxy received a trailer section that was too large.",
+            Token("http_response_trailer_size"): "The proxy received a trailer that was too large.",
             Token(
                 "http_response_transfer_coding"
             ): "The proxy encountered an error decoding the transfer coding.",
@@ -98,6 +102,7 @@ KNOWN_PARAMS: Dict[str, Dict[str, Any]] = {
             ): "The proxy encountered a timeout while waiting for the response.",
             Token("http_upgrade_failed"): "The proxy failed to upgrade the connection.",
             Token("http_protocol_error"): "The proxy encountered a protocol error.",
+            Token("proxy_internal_response"): "The proxy generated the response itself.",
             Token("proxy_internal_error"): "The proxy encountered an internal error.",
             Token("proxy_configuration_error"): "The proxy encountered a configuration error.",
             Token("proxy_loop_detected"): "The proxy detected a loop.",
-- 
2.43.0


From 6f059c03ea376cdaa9912265bd7da15aeadc2b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:25:28 +0000
Subject: [PATCH 119/123] fix: an allowed origin isn't any URI

---
 httplint/field/parsers/access_control_allow_origin.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/httplint/field/parsers/access_control_allow_origin.py b/httplint/field/parsers/access_control_allow_origin.py
index e26499e..4fd407b 100644
--- a/httplint/field/parsers/access_control_allow_origin.py
+++ b/httplint/field/parsers/access_control_allow_origin.py
@@ -22,7 +22,9 @@ class access_control_allow_origin(SingletonField[ResponseLinterProtocol]):
 The `Access-Control-Allow-Origin` response header indicates whether the response can be shared with
 requesting code from the given origin."""
     reference = "https://fetch.spec.whatwg.org/#http-access-control-allow-origin"
-    syntax = rf"(?:\*|null|{rfc3986.URI_reference})"
+    syntax = (
+        rf"(?:\*|(?-i:null)|{rfc3986.scheme} :// {rfc3986.host} (?: : {rfc3986.port} )?)"
+    )
     category = categories.CORS
     deprecated = False
 
-- 
2.43.0


From f1ade6d331b85617f888bacd1f9c06f33445c633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:19 +0000
Subject: [PATCH 120/123] fix: browsers only look at X-Content-Type-Options'
 first value

---
 httplint/field/parsers/x_content_type_options.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/field/parsers/x_content_type_options.py b/httplint/field/parsers/x_content_type_options.py
index c8c9837..158598c 100644
--- a/httplint/field/parsers/x_content_type_options.py
+++ b/httplint/field/parsers/x_content_type_options.py
@@ -15,7 +15,7 @@ Indicates that the client should not 'sniff' the `Content-Type` of the message f
     deprecated = False
 
     def evaluate(self, add_note: AddNoteMethodType) -> None:
-        if "nosniff" in [value.lower() for value in self.value]:
+        if [value.lower() for value in self.value[:1]] == ["nosniff"]:  # others are ignored
             add_note(CONTENT_TYPE_OPTIONS)
         else:
             add_note(CONTENT_TYPE_OPTIONS_UNKNOWN)
-- 
2.43.0


From 7be2a6d9093410354a7fc27f8babc5d5a69989d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:33:03 +0000
Subject: [PATCH 121/123] fix: the last SameSite and Path of a cookie count

---
 httplint/field/parsers/set_cookie.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/httplint/field/parsers/set_cookie.py b/httplint/field/parsers/set_cookie.py
index 9f65541..f1599ce 100644
--- a/httplint/field/parsers/set_cookie.py
+++ b/httplint/field/parsers/set_cookie.py
@@ -70,7 +70,7 @@ requests to the server."""
 def _is_hardened(attrs: List[Tuple[str, Union[str, int]]]) -> bool:
     has_secure = ("Secure", "") in attrs
     has_httponly = ("HttpOnly", "") in attrs
-    has_safe_samesite = any(k == "SameSite" and v in ("Strict", "Lax") for k, v in attrs)
+    has_safe_samesite = dict(attrs).get("SameSite") in ("Strict", "Lax")  # the last one counts
     return has_secure and has_httponly and has_safe_samesite
 
 
@@ -148,7 +148,7 @@ def loose_parse(  # pylint: disable=too-many-branches
             lifetime_note_added,
         )
 
-    if ("SameSite", "None") in cookie_attribute_list and (
+    if dict(cookie_attribute_list).get("SameSite") == "None" and (
         "Secure",
         "",
     ) not in cookie_attribute_list:
@@ -293,7 +293,7 @@ def check_prefixes(
     if lower_name.startswith("__host-"):
         if ("Secure", "") not in cookie_attribute_list:
             add_note(SET_COOKIE_PREFIX_SECURE_MISSING, cookie_name=cookie_name)
-        if ("Path", "/") not in cookie_attribute_list:
+        if dict(cookie_attribute_list).get("Path") != "/":
             add_note(SET_COOKIE_PREFIX_HOST_BAD_PATH, cookie_name=cookie_name)
         for attr_name, _ in cookie_attribute_list:
             if attr_name == "Domain":
-- 
2.43.0


From 970fa94bfc02243385ecc2586f5c9add99fbe0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:02:46 +0000
Subject: [PATCH 122/123] fix: point at the right character when a Structured
 Field can't be parsed

---
 httplint/field/structured_field.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/httplint/field/structured_field.py b/httplint/field/structured_field.py
index 0b013c4..ed05873 100644
--- a/httplint/field/structured_field.py
+++ b/httplint/field/structured_field.py
@@ -40,9 +40,10 @@ class StructuredField(HttpField[TMessage], Generic[TMessage]):
         def on_duplicate_key(key: str, context: str) -> None:
             add_note(DUPLICATE_KEY, key=key, context=context)
 
+        encoded_value = combined_value.encode("utf-8")
         try:
             self.value = http_sf.parse(
-                combined_value.encode("utf-8"),
+                encoded_value,
                 tltype=self.sf_type,
                 on_duplicate_key=on_duplicate_key,
             )
@@ -50,7 +51,8 @@ class StructuredField(HttpField[TMessage], Generic[TMessage]):
             problem = str(why)
             context = ""
             if hasattr(why, "position") and why.position is not None:
-                bad_char_index = why.position
+                # the position is in bytes
+                bad_char_index = len(encoded_value[: why.position].decode("utf-8", "ignore"))
                 context_start = max(0, bad_char_index - CONTEXT_CHARS)
                 context_end = min(len(combined_value), bad_char_index + CONTEXT_CHARS)
                 context_str = " ".join(combined_value[context_start:context_end].splitlines())
-- 
2.43.0


From b7d99daa112070422763292b6bc30fe6dc827e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:32:39 +0000
Subject: [PATCH 123/123] fix: don't take a field name with non-ASCII
 characters for the one without them

---
 httplint/field/section.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/field/section.py b/httplint/field/section.py
index 445cfd9..ce3975f 100644
--- a/httplint/field/section.py
+++ b/httplint/field/section.py
@@ -51,7 +51,7 @@ class FieldSection:
             try:
                 str_name = name.decode("ascii", "strict")
             except UnicodeError:
-                str_name = name.decode("ascii", "ignore")
+                str_name = name.decode("ascii", "replace")
                 add_note(FIELD_NAME_ENCODING, field_name=str_name)
             try:
                 str_value = value.decode("ascii", "strict")
-- 
2.43.0

