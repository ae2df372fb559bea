From 84fe6fab61478eb0c9ee7d203f4332cb9ce5083b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:08 +0000
Subject: [PATCH 01/93] fix: quote empty header values so that they survive a
 round trip

---
 verktyg/http/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/http/basic.py b/verktyg/http/basic.py
index c83f722..87e1a82 100644
--- a/verktyg/http/basic.py
+++ b/verktyg/http/basic.py
@@ -76,7 +76,7 @@ def quote_header_value(value, extra_chars='', allow_token=True):
     if isinstance(value, bytes):
         value = bytes_to_wsgi(value)
     value = str(value)
-    if allow_token:
+    if allow_token and value:
         token_chars = _token_chars | set(extra_chars)
         if set(value).issubset(token_chars):
             return value
-- 
2.43.0


From 255a056a7f08a7ccb0414eeab48686d3bb0ce396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:10 +0000
Subject: [PATCH 02/93] fix: do not unquote list and dict header values twice

---
 verktyg/http/basic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verktyg/http/basic.py b/verktyg/http/basic.py
index 87e1a82..3311c9b 100644
--- a/verktyg/http/basic.py
+++ b/verktyg/http/basic.py
@@ -612,7 +612,7 @@ def parse_list_header(value):
     result = []
     for item in _parse_list_header(value):
         if item[:1] == item[-1:] == '"':
-            item = unquote_header_value(item[1:-1])
+            item = item[1:-1]
         result.append(item)
     return result
 
@@ -653,7 +653,7 @@ def parse_dict_header(value, cls=dict):
             continue
         name, value = item.split('=', 1)
         if value[:1] == value[-1:] == '"':
-            value = unquote_header_value(value[1:-1])
+            value = value[1:-1]
         result[name] = value
     return result
 
-- 
2.43.0


From a8aa3a0cf9233fc713dffb6c27c402197ef6aff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:05 +0000
Subject: [PATCH 03/93] fix: do not match paths with a trailing newline

---
 verktyg/routing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/routing.py b/verktyg/routing.py
index 2fe0b86..daf3775 100644
--- a/verktyg/routing.py
+++ b/verktyg/routing.py
@@ -627,7 +627,7 @@ class Route(RouteFactory):
 
         if self.build_only:
             return
-        regex = r'^%s%s$' % (
+        regex = r'^%s%s\Z' % (
             u''.join(regex_parts),
             '(?<!/)(?P<__suffix__>/?)'
             if (not self.is_leaf or not self.strict_slashes)
-- 
2.43.0


From 2502b40adc851f258adade4558867dfc455026ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:08 +0000
Subject: [PATCH 04/93] fix: keep dot and empty segments when building relative
 urls

---
 verktyg/routing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/routing.py b/verktyg/routing.py
index daf3775..841b37f 100644
--- a/verktyg/routing.py
+++ b/verktyg/routing.py
@@ -1557,7 +1557,7 @@ class MapAdapter(object):
                 (host_matching and host == self.server_name) or
                 (not host_matching and domain_part == self.subdomain)
             ):
-                return str(urljoin(self.script_name, './' + path.lstrip('/')))
+                return posixpath.join(self.script_name, path.lstrip('/'))
 
         return urlunparse(ParseResult(
             scheme=self.url_scheme or '',
-- 
2.43.0


From 565be98298b7975697222f69e63c95551e1bc9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:10 +0000
Subject: [PATCH 05/93] fix: always generate redirects to absolute paths

---
 verktyg/routing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/routing.py b/verktyg/routing.py
index 841b37f..e66f899 100644
--- a/verktyg/routing.py
+++ b/verktyg/routing.py
@@ -1458,7 +1458,7 @@ class MapAdapter(object):
         return urlunparse(ParseResult(
             scheme=self.url_scheme or '',
             netloc=self.get_host(domain_part),
-            path=posixpath.join(
+            path='/' + posixpath.join(
                 self.script_name.strip('/'), path_info.lstrip('/')
             ),
             query=self.encode_query_args(query_args) if query_args else '',
-- 
2.43.0


From 5b0c0f0210c5ac0a4546fe0b5dd51af4cdd8553d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:12 +0000
Subject: [PATCH 06/93] fix: accept multi dicts when building urls

---
 verktyg/routing.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/verktyg/routing.py b/verktyg/routing.py
index e66f899..1615833 100644
--- a/verktyg/routing.py
+++ b/verktyg/routing.py
@@ -1531,10 +1531,14 @@ class MapAdapter(object):
         self.router.update()
         if values:
             if isinstance(values, MultiDict):
-                valueiter = values.iteritems(multi=True)
+                values = MultiDict([
+                    (k, v) for k, v in values.items(multi=True)
+                    if v is not None
+                ])
             else:
-                valueiter = values.items()
-            values = dict((k, v) for k, v in valueiter if v is not None)
+                values = dict(
+                    (k, v) for k, v in values.items() if v is not None
+                )
         else:
             values = {}
 
-- 
2.43.0


From fd55fd041825c27d48a6d9dcfb3f421b3a2955f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:13 +0000
Subject: [PATCH 07/93] fix: keep all values of list valued query arguments
 when building urls

---
 verktyg/routing.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/verktyg/routing.py b/verktyg/routing.py
index 1615833..3898fc2 100644
--- a/verktyg/routing.py
+++ b/verktyg/routing.py
@@ -707,7 +707,10 @@ class Route(RouteFactory):
 
             if query_vars:
                 url += u'?' + urlencode(
-                    sorted(query_vars.items(), key=self.router.sort_key),
+                    sorted(
+                        query_vars.items(multi=True),
+                        key=self.router.sort_key or (lambda item: item[0])
+                    ),
                     encoding=self.router.charset,
                 )
 
-- 
2.43.0


From 91861d312cd48a5d6356059d9f54dcafdf7cf3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:15 +0000
Subject: [PATCH 08/93] fix: keep all options of routes in route templates

---
 verktyg/routing.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/verktyg/routing.py b/verktyg/routing.py
index 3898fc2..80a45af 100644
--- a/verktyg/routing.py
+++ b/verktyg/routing.py
@@ -404,7 +404,10 @@ class RouteTemplateFactory(RouteFactory):
                     subdomain,
                     route.build_only,
                     new_endpoint,
-                    route.strict_slashes
+                    route.strict_slashes,
+                    route.redirect_to,
+                    route.alias,
+                    route.host,
                 )
 
 
-- 
2.43.0


From db6d4e44185495a2aa3b45698a2d254118138074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:18 +0000
Subject: [PATCH 09/93] fix: match the root if no path info is available

---
 verktyg/routing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/routing.py b/verktyg/routing.py
index 80a45af..cfce28a 100644
--- a/verktyg/routing.py
+++ b/verktyg/routing.py
@@ -1341,7 +1341,7 @@ class MapAdapter(object):
         """
         self.router.update()
         if path_info is None:
-            path_info = self.path_info
+            path_info = self.path_info or ''
         if query_args is None:
             query_args = self.query_args
 
-- 
2.43.0


From 3b4ecd7373a8cbbee4068f6d2e7633fec03259a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:20 +0000
Subject: [PATCH 10/93] fix: match newlines inside of path components

---
 verktyg/routing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/routing.py b/verktyg/routing.py
index cfce28a..072254e 100644
--- a/verktyg/routing.py
+++ b/verktyg/routing.py
@@ -887,7 +887,7 @@ class PathConverter(BaseConverter):
     :param router:
         The :class:`URLMap`.
     """
-    regex = '[^/].*?'
+    regex = r'[^/](?:.|\n)*?'
     weight = 200
 
 
-- 
2.43.0


From c1cb66ff4c984727fb20b601a0ed8baaf294dd8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:23 +0000
Subject: [PATCH 11/93] fix: never use exponent notation for floats in urls

---
 verktyg/routing.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/verktyg/routing.py b/verktyg/routing.py
index 072254e..cd7a61f 100644
--- a/verktyg/routing.py
+++ b/verktyg/routing.py
@@ -94,6 +94,7 @@
 import re
 import uuid
 import posixpath
+from decimal import Decimal
 from urllib.parse import (
     urlencode, quote as urlquote, urljoin,
     urlunparse, ParseResult
@@ -969,6 +970,10 @@ class FloatConverter(NumberConverter):
     def __init__(self, router, min=None, max=None):
         NumberConverter.__init__(self, router, 0, min, max)
 
+    def to_url(self, value):
+        value = '{:f}'.format(Decimal(repr(self.num_convert(value))))
+        return value if '.' in value else value + '.0'
+
 
 class UUIDConverter(BaseConverter):
     """This converter only accepts UUID strings::
-- 
2.43.0


From 7ce8fe6721160e1abbbe493ba543d6512915abf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:08 +0000
Subject: [PATCH 12/93] fix: use the most specific matching accept range,
 whatever the order of the header

---
 verktyg/accept/_base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/verktyg/accept/_base.py b/verktyg/accept/_base.py
index eaca9ff..126a781 100644
--- a/verktyg/accept/_base.py
+++ b/verktyg/accept/_base.py
@@ -209,7 +209,10 @@ class Value(object):
             except NotAcceptable:
                 pass
             else:
-                if best_match is None or match > best_match:
+                if best_match is None or (
+                    (match._match_quality, match._q) >
+                    (best_match._match_quality, best_match._q)
+                ):
                     best_match = match
 
         if best_match is None:
-- 
2.43.0


From d516fb579aee5e3a178a699ba0605d1be312c7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:10 +0000
Subject: [PATCH 13/93] fix: treat ranges with a quality of zero as not
 acceptable

---
 verktyg/accept/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/accept/_base.py b/verktyg/accept/_base.py
index 126a781..ba3a20c 100644
--- a/verktyg/accept/_base.py
+++ b/verktyg/accept/_base.py
@@ -215,7 +215,7 @@ class Value(object):
                 ):
                     best_match = match
 
-        if best_match is None:
+        if best_match is None or not best_match._q:
             raise NotAcceptable()
 
         return best_match
-- 
2.43.0


From 1e72a06b64ffec579bc884ee84c7b5c235b034e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:12 +0000
Subject: [PATCH 14/93] fix: order acceptabilities by quality and then by
 quality of match

---
 verktyg/accept/_base.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/verktyg/accept/_base.py b/verktyg/accept/_base.py
index ba3a20c..8ef135a 100644
--- a/verktyg/accept/_base.py
+++ b/verktyg/accept/_base.py
@@ -167,13 +167,10 @@ class Acceptability(object):
         if other is None:
             return True
 
-        if self._match_quality > other._match_quality:
-            return True
-
-        if self.quality > other.quality:
-            return True
-
-        return False
+        return (
+            (self.quality, self._match_quality) >
+            (other.quality, other._match_quality)
+        )
 
 
 # TODO better name
-- 
2.43.0


From 9b086c0f345a95ca34f12a924e939b4c70e3908d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:14 +0000
Subject: [PATCH 15/93] fix: compare representations lexicographically

---
 verktyg/accept/__init__.py | 36 +++++++++++++++++-------------------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/verktyg/accept/__init__.py b/verktyg/accept/__init__.py
index 2d93257..afed475 100644
--- a/verktyg/accept/__init__.py
+++ b/verktyg/accept/__init__.py
@@ -53,29 +53,27 @@ class Acceptability(object):
         return True
 
     def __gt__(self, other):
-        def _gt(self, other):
-            if (self is None) and (other is None):
-                return False
-            if self <= other:
-                return False
-            return True
-
-        if _gt(
+        for ours, theirs in (
+            (
                 self._content_type_acceptability,
-                other._content_type_acceptability):
-            return True
-        if _gt(
+                other._content_type_acceptability
+            ), (
                 self._language_acceptability,
-                other._language_acceptability):
-            return True
-        if _gt(
+                other._language_acceptability
+            ), (
                 self._charset_acceptability,
-                other._charset_acceptability):
-            return True
-        if _gt(
+                other._charset_acceptability
+            ), (
                 self._qs,
-                other._qs):
-            return True
+                other._qs
+            )
+        ):
+            if ours is None and theirs is None:
+                continue
+            if ours is None or theirs is None:
+                return theirs is None
+            if ours != theirs:
+                return ours > theirs
         return False
 
 
-- 
2.43.0


From 222ed61995b05ddbca00d6e663ae726ebbf9e7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:16 +0000
Subject: [PATCH 16/93] fix: negotiate languages and charsets using their own
 headers

---
 verktyg/accept/__init__.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/verktyg/accept/__init__.py b/verktyg/accept/__init__.py
index afed475..f3369b9 100644
--- a/verktyg/accept/__init__.py
+++ b/verktyg/accept/__init__.py
@@ -169,14 +169,18 @@ class Representation(object):
             None
         )
 
+        if accept_language is None:
+            accept_language = parse_accept_language_header('*')
         language_acceptability = (
-            self._content_type.acceptability(accept)
+            self._language.acceptability(accept_language)
             if self._language is not None else
             None
         )
 
+        if accept_charset is None:
+            accept_charset = parse_accept_charset_header('*')
         charset_acceptability = (
-            self._charset.acceptability
+            self._charset.acceptability(accept_charset)
             if self._charset is not None else
             None
         )
-- 
2.43.0


From 6ad190e77dd2079b47c44cc1e53083de09b2ec14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:17 +0000
Subject: [PATCH 17/93] fix: multiply the quality of the content type with the
 quality of source

---
 verktyg/accept/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/accept/__init__.py b/verktyg/accept/__init__.py
index f3369b9..a2736d6 100644
--- a/verktyg/accept/__init__.py
+++ b/verktyg/accept/__init__.py
@@ -126,7 +126,7 @@ class Representation(object):
         charset=None, qs=None
     ):
         if isinstance(content_type, str):
-            content_type = parse_content_type_header(content_type)
+            content_type = parse_content_type_header(content_type, qs=qs)
         self._content_type = content_type
 
         if isinstance(language, str):
-- 
2.43.0


From f7be560b500fc2b6e106b66461f1fb67480bcf4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:17 +0000
Subject: [PATCH 18/93] fix: yield handlers from exception dispatchers so that
 they can be nested

---
 verktyg/exception_dispatch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/verktyg/exception_dispatch.py b/verktyg/exception_dispatch.py
index 6634a21..1e731d2 100644
--- a/verktyg/exception_dispatch.py
+++ b/verktyg/exception_dispatch.py
@@ -77,7 +77,8 @@ class ExceptionDispatcher(ExceptionHandlerFactory):
                 self._handlers[handler.exception_class].append(handler)
 
     def get_exception_handlers(self):
-        return iter(self._handlers)
+        for handlers in self._handlers.values():
+            yield from handlers
 
     def lookup(
         self, exception_class,
-- 
2.43.0


From 95d0e208366850ea99c16f42d47135c7831acb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:34 +0000
Subject: [PATCH 19/93] fix: honour the error handling argument when parsing
 cookies

---
 verktyg/http/cookies.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verktyg/http/cookies.py b/verktyg/http/cookies.py
index 95bab83..be3dde9 100644
--- a/verktyg/http/cookies.py
+++ b/verktyg/http/cookies.py
@@ -188,8 +188,8 @@ def parse_cookie(header, charset='utf-8', errors='replace', cls=None):
 
     def _parse_pairs():
         for key, val in _cookie_parse_impl(header):
-            key = key.decode(charset)
-            val = val.decode(charset)
+            key = key.decode(charset, errors)
+            val = val.decode(charset, errors)
             yield key, val
 
     return cls(_parse_pairs())
-- 
2.43.0


From e3586ea29abd192fff57aa7a0a7857617bc04e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:36 +0000
Subject: [PATCH 20/93] fix: keep cookies which follow one without a value
 apart from it

---
 verktyg/http/cookies.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/http/cookies.py b/verktyg/http/cookies.py
index be3dde9..aede082 100644
--- a/verktyg/http/cookies.py
+++ b/verktyg/http/cookies.py
@@ -39,7 +39,7 @@ for _i in chain(range(32), range(127, 256)):
 _octal_re = re.compile(b'\\\\[0-3][0-7][0-7]')
 _quote_re = re.compile(b'[\\\\].')
 _cookie_re = re.compile(b"""(?x)
-    (?P<key>[^=]+)
+    (?P<key>[^=;]+)
     \s*=\s*
     (?P<val>
         "(?:[^\\\\"]|\\\\.)*" |
-- 
2.43.0


From f8bab1e9a21b7b6cf2f55b873b702a04b6aea345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:18 +0000
Subject: [PATCH 21/93] fix: ignore malformed range headers instead of failing

---
 verktyg/http/cache_control.py | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/verktyg/http/cache_control.py b/verktyg/http/cache_control.py
index b94f52c..650b362 100644
--- a/verktyg/http/cache_control.py
+++ b/verktyg/http/cache_control.py
@@ -17,6 +17,15 @@ from verktyg.http.basic import (
 
 
 _etag_re = re.compile(r'([Ww]/)?(?:"(.*?)"|(.*?))(?:\s*,\s*|$)')
+_digits_re = re.compile(r'[0-9]+\Z')
+
+
+def _parse_position(value):
+    """Parse a non-negative decimal number or raise a :exc:`ValueError`."""
+    value = value.strip()
+    if _digits_re.match(value) is None:
+        raise ValueError('not a position')
+    return int(value)
 
 
 class IfRange(object):
@@ -134,21 +143,30 @@ def parse_range_header(value, make_inclusive=True):
         if item.startswith('-'):
             if last_end < 0:
                 return None
-            begin = int(item)
+            try:
+                begin = -_parse_position(item[1:])
+            except ValueError:
+                return None
+            if not begin:
+                # the last zero bytes, can not be told from the whole range
+                return None
             end = None
             last_end = -1
         elif '-' in item:
             begin, end = item.split('-', 1)
-            begin = int(begin)
+            try:
+                begin = _parse_position(begin)
+                end = _parse_position(end) + 1 if end else None
+            except ValueError:
+                return None
             if begin < last_end or last_end < 0:
                 return None
-            if end:
-                end = int(end) + 1
-                if begin >= end:
-                    return None
+            if end is None:
+                last_end = -1
+            elif begin >= end:
+                return None
             else:
-                end = None
-            last_end = end
+                last_end = end
         ranges.append((begin, end))
 
     return Range(units, ranges)
-- 
2.43.0


From 556e15c95fd13067c9f71540b65e1e9e36f78598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:20 +0000
Subject: [PATCH 22/93] fix: ignore content range headers with numbers that are
 not decimal

---
 verktyg/http/cache_control.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/verktyg/http/cache_control.py b/verktyg/http/cache_control.py
index 650b362..154c713 100644
--- a/verktyg/http/cache_control.py
+++ b/verktyg/http/cache_control.py
@@ -270,10 +270,11 @@ def parse_content_range_header(value, on_update=None):
     rng, length = rangedef.split('/', 1)
     if length == '*':
         length = None
-    elif length.isdigit():
-        length = int(length)
     else:
-        return None
+        try:
+            length = _parse_position(length)
+        except ValueError:
+            return None
 
     if rng == '*':
         return ContentRange(units, None, None, length, on_update=on_update)
@@ -282,8 +283,8 @@ def parse_content_range_header(value, on_update=None):
 
     start, stop = rng.split('-', 1)
     try:
-        start = int(start)
-        stop = int(stop) + 1
+        start = _parse_position(start)
+        stop = _parse_position(stop) + 1
     except ValueError:
         return None
 
-- 
2.43.0


From 779710e081deb645b504de9de41dc2b5c8f0cbf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:21 +0000
Subject: [PATCH 23/93] fix: serve everything for suffix ranges which are
 longer than the content

---
 verktyg/http/cache_control.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/http/cache_control.py b/verktyg/http/cache_control.py
index 154c713..2dde547 100644
--- a/verktyg/http/cache_control.py
+++ b/verktyg/http/cache_control.py
@@ -93,7 +93,7 @@ class Range(object):
         if end is None:
             end = length
             if start < 0:
-                start += length
+                start = max(0, start + length)
         if is_byte_range_valid(start, end, length):
             return start, min(end, length)
 
-- 
2.43.0


From 0f20ad54e31bc2accf8c2b905decc49134e8b111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:23 +0000
Subject: [PATCH 24/93] fix: content ranges can not end after the content

---
 verktyg/http/basic.py         | 2 +-
 verktyg/http/cache_control.py | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/verktyg/http/basic.py b/verktyg/http/basic.py
index 3311c9b..98d8442 100644
--- a/verktyg/http/basic.py
+++ b/verktyg/http/basic.py
@@ -827,7 +827,7 @@ def is_byte_range_valid(start, stop, length):
         return 0 <= start < stop
     elif start >= stop:
         return False
-    return 0 <= start < length
+    return 0 <= start and stop <= length
 
 
 class FileStorage(object):
diff --git a/verktyg/http/cache_control.py b/verktyg/http/cache_control.py
index 2dde547..572ab2f 100644
--- a/verktyg/http/cache_control.py
+++ b/verktyg/http/cache_control.py
@@ -94,8 +94,9 @@ class Range(object):
             end = length
             if start < 0:
                 start = max(0, start + length)
+        end = min(end, length)
         if is_byte_range_valid(start, end, length):
-            return start, min(end, length)
+            return start, end
 
     def make_content_range(self, length):
         """Creates a :class:`~verktyg.datastructures.ContentRange` object
-- 
2.43.0


From f18a09a598bd3f37405d18c91f9493a955ac5b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:11 +0000
Subject: [PATCH 25/93] fix: do not loop forever on etag headers with a
 trailing newline

---
 verktyg/http/cache_control.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/http/cache_control.py b/verktyg/http/cache_control.py
index 572ab2f..8133239 100644
--- a/verktyg/http/cache_control.py
+++ b/verktyg/http/cache_control.py
@@ -16,7 +16,7 @@ from verktyg.http.basic import (
 )
 
 
-_etag_re = re.compile(r'([Ww]/)?(?:"(.*?)"|(.*?))(?:\s*,\s*|$)')
+_etag_re = re.compile(r'([Ww]/)?(?:"(.*?)"|(.*?))(?:\s*,\s*|\Z)')
 _digits_re = re.compile(r'[0-9]+\Z')
 
 
-- 
2.43.0


From 465ae90f8b488a8fefd2a09e2e8c0dc4225fd6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:13 +0000
Subject: [PATCH 26/93] fix: parse empty etags, ignore empty list elements

---
 verktyg/http/cache_control.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/verktyg/http/cache_control.py b/verktyg/http/cache_control.py
index 8133239..c5a4e36 100644
--- a/verktyg/http/cache_control.py
+++ b/verktyg/http/cache_control.py
@@ -585,13 +585,15 @@ def parse_etags(value):
         is_weak, quoted, raw = match.groups()
         if raw == '*':
             return ETags(star_tag=True)
-        elif quoted:
+        pos = match.end()
+        if quoted is not None:
             raw = quoted
+        elif not raw:
+            continue
         if is_weak:
             weak.append(raw)
         else:
             strong.append(raw)
-        pos = match.end()
     return ETags(strong, weak)
 
 
-- 
2.43.0


From 995b039d5d953b19c551fa1a924a9c76ca47d06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:35 +0000
Subject: [PATCH 27/93] fix: run close callbacks of responses once only

---
 verktyg/responses.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/verktyg/responses.py b/verktyg/responses.py
index e6e434b..b7593e1 100644
--- a/verktyg/responses.py
+++ b/verktyg/responses.py
@@ -474,7 +474,10 @@ class BaseResponse(object):
         """
         if hasattr(self.response, 'close'):
             self.response.close()
-        for func in self._on_close:
+        # the response can be closed both by the server and by a with
+        # statement, callbacks must still run only once.
+        on_close, self._on_close = self._on_close, []
+        for func in on_close:
             func()
 
     def __enter__(self):
-- 
2.43.0


From bff43cc15f7d7bb7536957cf2010dd8eb5dd7bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:36 +0000
Subject: [PATCH 28/93] fix: count bytes and not characters in the content
 length

---
 verktyg/responses.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verktyg/responses.py b/verktyg/responses.py
index b7593e1..389879a 100644
--- a/verktyg/responses.py
+++ b/verktyg/responses.py
@@ -344,7 +344,7 @@ class BaseResponse(object):
             self._ensure_sequence()
         except RuntimeError:
             return None
-        return sum(len(x) for x in self.response)
+        return sum(len(x) for x in self.iter_encoded())
 
     def _ensure_sequence(self, mutable=False):
         """This method can be called by methods that need a sequence.  If
@@ -570,7 +570,7 @@ class BaseResponse(object):
             self.automatically_set_content_length and
             self.is_sequence and content_length is None and status != 304
         ):
-            content_length = sum(len(x) for x in self.response)
+            content_length = sum(len(x) for x in self.iter_encoded())
             headers['Content-Length'] = str(content_length)
 
         return headers
-- 
2.43.0


From 178794943164e6656d941b577b1eac66c602af22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:38 +0000
Subject: [PATCH 29/93] fix: never read past the limit of a stream when given a
 negative size

---
 verktyg/wsgi.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/verktyg/wsgi.py b/verktyg/wsgi.py
index 4b15444..01e0f8f 100644
--- a/verktyg/wsgi.py
+++ b/verktyg/wsgi.py
@@ -869,7 +869,7 @@ class LimitedStream(object):
         """
         if self._pos >= self.limit:
             return self.on_exhausted()
-        if size is None or size == -1:  # -1 is for consistence with file
+        if size is None or size < 0:  # for consistence with file
             size = self.limit
         to_read = min(self.limit - self._pos, size)
         try:
@@ -885,7 +885,7 @@ class LimitedStream(object):
         """Reads one line from the stream."""
         if self._pos >= self.limit:
             return self.on_exhausted()
-        if size is None:
+        if size is None or size < 0:
             size = self.limit - self._pos
         else:
             size = min(size, self.limit - self._pos)
@@ -906,6 +906,8 @@ class LimitedStream(object):
         """
         last_pos = self._pos
         result = []
+        if size is not None and size < 0:
+            size = None
         if size is not None:
             end = min(self.limit, last_pos + size)
         else:
-- 
2.43.0


From 206dc616bcf60b99bbede1decc951473bc5f633c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:40 +0000
Subject: [PATCH 30/93] fix: iterate over the lines of byte streams

---
 verktyg/wsgi.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/verktyg/wsgi.py b/verktyg/wsgi.py
index 01e0f8f..1104fae 100644
--- a/verktyg/wsgi.py
+++ b/verktyg/wsgi.py
@@ -700,6 +700,16 @@ def make_line_iter(stream, limit=None, buffer_size=10 * 1024):
     """
     _iter = _make_chunk_iter(stream, limit, buffer_size)
 
+    first_item = next(_iter, '')
+    if not first_item:
+        return
+
+    _iter = chain((first_item,), _iter)
+    if isinstance(first_item, str):
+        empty, cr, lf = '', '\r', '\n'
+    else:
+        empty, cr, lf = b'', b'\r', b'\n'
+
     def _iter_basic_lines():
         buffer = []
         while 1:
@@ -709,20 +719,20 @@ def make_line_iter(stream, limit=None, buffer_size=10 * 1024):
             new_buf = []
             for item in chain(buffer, new_data.splitlines(True)):
                 new_buf.append(item)
-                if item and item[-1:] in '\r\n':
-                    yield ''.join(new_buf)
+                if item and item[-1:] in (cr, lf):
+                    yield empty.join(new_buf)
                     new_buf = []
             buffer = new_buf
         if buffer:
-            yield ''.join(buffer)
+            yield empty.join(buffer)
 
     # This hackery is necessary to merge 'foo\r' and '\n' into one item
     # of 'foo\r\n' if we were unlucky and we hit a chunk boundary.
-    previous = ''
+    previous = empty
     for item in _iter_basic_lines():
-        if item == '\n' and previous[-1:] == '\r':
+        if item == lf and previous[-1:] == cr:
             previous += item
-            item = ''
+            item = empty
         if previous:
             yield previous
         previous = item
-- 
2.43.0


From 1dd711fdd03afdec81cfc968299924d74239c491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:42 +0000
Subject: [PATCH 31/93] fix: find separators which are split between two chunks

---
 verktyg/wsgi.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/verktyg/wsgi.py b/verktyg/wsgi.py
index 1104fae..bbdcd9d 100644
--- a/verktyg/wsgi.py
+++ b/verktyg/wsgi.py
@@ -775,9 +775,10 @@ def make_chunk_iter(stream, separator, limit=None, buffer_size=10 * 1024):
         new_data = next(_iter, '')
         if not new_data:
             break
-        chunks = _split(new_data)
+        # the separator could have been split by the end of the last chunk.
+        chunks = _split(_join(buffer) + new_data)
         new_buf = []
-        for item in chain(buffer, chunks):
+        for item in chunks:
             if item == separator:
                 yield _join(new_buf)
                 new_buf = []
-- 
2.43.0


From 1f3201e128eb706a1907d2f310821564b295e232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:39 +0000
Subject: [PATCH 32/93] fix: end iteration over the lines of uploaded files at
 the end of the file

---
 verktyg/http/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/http/basic.py b/verktyg/http/basic.py
index 98d8442..2ab3f28 100644
--- a/verktyg/http/basic.py
+++ b/verktyg/http/basic.py
@@ -946,7 +946,7 @@ class FileStorage(object):
         return getattr(self.stream, name)
 
     def __iter__(self):
-        return iter(self.readline, '')
+        return iter(self.stream)
 
     def __repr__(self):
         return '<%s: %r (%r)>' % (
-- 
2.43.0


From d560b851894239ddcf1c1ca484f4221d5dd1c99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:14 +0000
Subject: [PATCH 33/93] fix: keep written data when running applications
 buffered

---
 verktyg/test.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/verktyg/test.py b/verktyg/test.py
index f6d2fd1..29a5a1c 100644
--- a/verktyg/test.py
+++ b/verktyg/test.py
@@ -928,7 +928,8 @@ def run_wsgi_app(app, environ, buffered=False):
     # application iterator into a regular list
     if buffered:
         try:
-            app_iter = list(app_iter)
+            buffer.extend(app_iter)
+            app_iter = buffer
         finally:
             if close_func is not None:
                 close_func()
-- 
2.43.0


From 93ce0d075bd5f75a5de09038e679c28c7e70a63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:15 +0000
Subject: [PATCH 34/93] fix: run generator applications which do not return a
 body

---
 verktyg/test.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/verktyg/test.py b/verktyg/test.py
index 29a5a1c..f82e268 100644
--- a/verktyg/test.py
+++ b/verktyg/test.py
@@ -940,7 +940,10 @@ def run_wsgi_app(app, environ, buffered=False):
     # original return value.
     else:
         while not response:
-            buffer.append(next(app_iter))
+            try:
+                buffer.append(next(app_iter))
+            except StopIteration:
+                break
         if buffer:
             app_iter = chain(buffer, app_iter)
         if close_func is not None and app_iter is not app_rv:
-- 
2.43.0


From d2cd1d8b6e249b7754963d50802cc15bda604315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:17 +0000
Subject: [PATCH 35/93] fix: reraise exceptions passed to start_response with
 their traceback

---
 verktyg/test.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/test.py b/verktyg/test.py
index f82e268..f13ae50 100644
--- a/verktyg/test.py
+++ b/verktyg/test.py
@@ -915,7 +915,7 @@ def run_wsgi_app(app, environ, buffered=False):
         if exc_info is not None:
             exc_type, exc_value, exc_traceback = exc_info
             if exc_value.__traceback__ is not exc_traceback:
-                raise exc_value.with_traceback()
+                raise exc_value.with_traceback(exc_traceback)
             raise exc_value
         response[:] = [status, headers]
         return buffer.append
-- 
2.43.0


From b1a8814ed7ae8621c0160f347619741806439067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:44 +0000
Subject: [PATCH 36/93] fix: render json views in applications which have no
 debug flag

---
 verktyg/views.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/views.py b/verktyg/views.py
index 24e52cd..b541e27 100644
--- a/verktyg/views.py
+++ b/verktyg/views.py
@@ -89,7 +89,7 @@ class JsonView(View):
             # no content
             return Response(status=204)
 
-        if env.debug:
+        if getattr(env, 'debug', False):
             json_response = json.dumps(res, indent=4)
         else:
             json_response = json.dumps(res, separators=(',', ':'))
-- 
2.43.0


From e47e179f5d8d40a205571788193fb2dc5371570a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:50 +0000
Subject: [PATCH 37/93] fix: SharedDataMiddleware failed with a list of
 disallow rules

---
 verktyg/wsgi.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/verktyg/wsgi.py b/verktyg/wsgi.py
index bbdcd9d..7874bd6 100644
--- a/verktyg/wsgi.py
+++ b/verktyg/wsgi.py
@@ -399,7 +399,11 @@ class SharedDataMiddleware(object):
             self.exports[key] = loader
         if disallow is not None:
             from fnmatch import fnmatch
-            self.is_allowed = lambda x: not fnmatch(x, disallow)
+            if isinstance(disallow, str):
+                disallow = [disallow]
+            self.is_allowed = lambda x: not any(
+                fnmatch(x, rule) for rule in disallow
+            )
         self.fallback_mimetype = fallback_mimetype
 
     def is_allowed(self, filename):
-- 
2.43.0


From 52dff5af0cbf2334476b2ea5d1d61609646d0f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:52 +0000
Subject: [PATCH 38/93] fix: host_is_trusted failed for subdomains and was
 bypassed by urls in the host

---
 verktyg/wsgi.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/verktyg/wsgi.py b/verktyg/wsgi.py
index 7874bd6..3950ad0 100644
--- a/verktyg/wsgi.py
+++ b/verktyg/wsgi.py
@@ -103,6 +103,13 @@ def get_current_url(
     return uri_to_iri(''.join(tmp))
 
 
+# the port at the end of a host, but not the last part of an IPv6 address
+_port_re = re.compile(r'(?<=[^:]):[0-9]*\Z')
+# a host name or an IPv6 address, without anything that would end the host
+# in an url
+_host_re = re.compile(br'\[[0-9A-Fa-f:.]+\]|[^\x00-\x20\x7f/?#@\\:\[\]]+')
+
+
 def host_is_trusted(hostname, trusted_list):
     """Checks if a host is trusted against a list.  This also takes care
     of port normalization.
@@ -120,11 +127,14 @@ def host_is_trusted(hostname, trusted_list):
         trusted_list = [trusted_list]
 
     def _normalize(hostname):
-        if ':' in hostname:
-            hostname = hostname.rsplit(':', 1)[0]
-        return encode_idna(hostname)
+        return encode_idna(_port_re.sub('', hostname))
 
-    hostname = _normalize(hostname)
+    try:
+        hostname = _normalize(hostname)
+    except UnicodeError:
+        return False
+    if not _host_re.fullmatch(hostname):
+        return False
     for ref in trusted_list:
         if ref.startswith('.'):
             ref = ref[1:]
@@ -134,7 +144,7 @@ def host_is_trusted(hostname, trusted_list):
         ref = _normalize(ref)
         if ref == hostname:
             return True
-        if suffix_match and hostname.endswith('.' + ref):
+        if suffix_match and hostname.endswith(b'.' + ref):
             return True
     return False
 
-- 
2.43.0


From 9b400ace1927fd1d1e14e877d6780ced24ddba8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:54 +0000
Subject: [PATCH 39/93] fix: HeaderSet.remove left headers in the list when the
 case differs

---
 verktyg/http/basic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verktyg/http/basic.py b/verktyg/http/basic.py
index 2ab3f28..0ae77ef 100644
--- a/verktyg/http/basic.py
+++ b/verktyg/http/basic.py
@@ -989,8 +989,8 @@ class HeaderSet(object):
         if key not in self._set:
             raise KeyError(header)
         self._set.remove(key)
-        for idx, key in enumerate(self._headers):
-            if key.lower() == header:
+        for idx, item in enumerate(self._headers):
+            if item.lower() == key:
                 del self._headers[idx]
                 break
         if self.on_update is not None:
-- 
2.43.0


From 38e49b8f9e88824d295ece268cb6284df8e7a96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:38 +0000
Subject: [PATCH 40/93] fix: HeaderSet was inconsistent when created or
 assigned with duplicates

---
 verktyg/http/basic.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/verktyg/http/basic.py b/verktyg/http/basic.py
index 0ae77ef..506fbdd 100644
--- a/verktyg/http/basic.py
+++ b/verktyg/http/basic.py
@@ -970,8 +970,10 @@ class HeaderSet(object):
     """
 
     def __init__(self, headers=None, on_update=None):
-        self._headers = list(headers or ())
-        self._set = set([x.lower() for x in self._headers])
+        self._headers = []
+        self._set = set()
+        self.on_update = None
+        self.update(headers or ())
         self.on_update = on_update
 
     def add(self, header):
@@ -1083,8 +1085,14 @@ class HeaderSet(object):
     def __setitem__(self, idx, value):
         old = self._headers[idx]
         self._set.remove(old.lower())
-        self._headers[idx] = value
-        self._set.add(value.lower())
+        if value.lower() in self._set:
+            # the assigned header replaces its other occurrence
+            other = self.find(value)
+            self._headers[idx] = value
+            del self._headers[other]
+        else:
+            self._headers[idx] = value
+            self._set.add(value.lower())
         if self.on_update is not None:
             self.on_update(self)
 
-- 
2.43.0


From d85fb187d11ad221fe449a3d12f9849c96195a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:48 +0000
Subject: [PATCH 41/93] fix: unset cache directives could not be set to None

---
 verktyg/http/cache_control.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/http/cache_control.py b/verktyg/http/cache_control.py
index c5a4e36..6e196dc 100644
--- a/verktyg/http/cache_control.py
+++ b/verktyg/http/cache_control.py
@@ -352,7 +352,7 @@ class _CacheControl(datastructures.UpdateDictMixin, dict):
                 self.pop(key, None)
         else:
             if value is None:
-                self.pop(key)
+                self.pop(key, None)
             elif value is True:
                 self[key] = None
             else:
-- 
2.43.0


From 5d158415c1c956fcf28725abd736a7c335396ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:50 +0000
Subject: [PATCH 42/93] fix: no_transform could not be read, s_maxage was no
 number

---
 verktyg/http/cache_control.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/verktyg/http/cache_control.py b/verktyg/http/cache_control.py
index 6e196dc..d1001ae 100644
--- a/verktyg/http/cache_control.py
+++ b/verktyg/http/cache_control.py
@@ -321,7 +321,7 @@ class _CacheControl(datastructures.UpdateDictMixin, dict):
     no_cache = cache_property('no-cache', '*', None)
     no_store = cache_property('no-store', None, bool)
     max_age = cache_property('max-age', -1, int)
-    no_transform = cache_property('no-transform', None, None)
+    no_transform = cache_property('no-transform', None, bool)
 
     def __init__(self, values=(), on_update=None):
         dict.__init__(self, values or ())
@@ -391,7 +391,7 @@ class RequestCacheControl(datastructures.ImmutableDictMixin, _CacheControl):
 
     max_stale = cache_property('max-stale', '*', int)
     min_fresh = cache_property('min-fresh', '*', int)
-    no_transform = cache_property('no-transform', None, None)
+    no_transform = cache_property('no-transform', None, bool)
     only_if_cached = cache_property('only-if-cached', None, bool)
 
 
@@ -410,7 +410,7 @@ class ResponseCacheControl(_CacheControl):
     private = cache_property('private', '*', None)
     must_revalidate = cache_property('must-revalidate', None, bool)
     proxy_revalidate = cache_property('proxy-revalidate', None, bool)
-    s_maxage = cache_property('s-maxage', None, None)
+    s_maxage = cache_property('s-maxage', None, int)
 
 
 # attach cache_property to the _CacheControl as staticmethod
-- 
2.43.0


From b5b66922b2efdfc8659f208e5c1d99ef3d7fd8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:53 +0000
Subject: [PATCH 43/93] fix: in-place union changed callback dicts without
 calling back

---
 verktyg/datastructures.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/verktyg/datastructures.py b/verktyg/datastructures.py
index 4c55381..e92b0e3 100644
--- a/verktyg/datastructures.py
+++ b/verktyg/datastructures.py
@@ -223,6 +223,7 @@ class UpdateDictMixin(object):
     clear = calls_update('clear')
     popitem = calls_update('popitem')
     update = calls_update('update')
+    __ior__ = calls_update('__ior__')
     del calls_update
 
 
-- 
2.43.0


From c5db06be1fff0a22f9b6947bd2fd91bb44d67ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:54 +0000
Subject: [PATCH 44/93] fix: immutable dicts and lists could be changed by |=
 and clear()

---
 verktyg/datastructures.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/verktyg/datastructures.py b/verktyg/datastructures.py
index e92b0e3..79dd214 100644
--- a/verktyg/datastructures.py
+++ b/verktyg/datastructures.py
@@ -95,6 +95,9 @@ class ImmutableListMixin(object):
     def sort(self, cmp=None, key=None, reverse=None):
         is_immutable(self)
 
+    def clear(self):
+        is_immutable(self)
+
 
 class ImmutableList(ImmutableListMixin, list):
     """An immutable :class:`list`.
@@ -152,6 +155,9 @@ class ImmutableDictMixin(object):
     def __delitem__(self, key):
         is_immutable(self)
 
+    def __ior__(self, other):
+        is_immutable(self)
+
     def clear(self):
         is_immutable(self)
 
-- 
2.43.0


From 4cbaab144cd69d4d37e00dec360b54e450223426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:57 +0000
Subject: [PATCH 45/93] fix: cleared ordered multi dicts kept their items

---
 verktyg/datastructures.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/verktyg/datastructures.py b/verktyg/datastructures.py
index 79dd214..9490506 100644
--- a/verktyg/datastructures.py
+++ b/verktyg/datastructures.py
@@ -777,6 +777,10 @@ class OrderedMultiDict(MultiDict):
         for key, value in iter_multi_items(mapping):
             OrderedMultiDict.add(self, key, value)
 
+    def clear(self):
+        dict.clear(self)
+        self._first_bucket = self._last_bucket = None
+
     def poplist(self, key):
         buckets = dict.pop(self, key, ())
         for bucket in buckets:
-- 
2.43.0


From f7ca0820f60c4c36939ec2afe1f2e80f98980de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:59 +0000
Subject: [PATCH 46/93] fix: deep copies of ordered and combined multi dicts
 were wrong

---
 verktyg/datastructures.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/verktyg/datastructures.py b/verktyg/datastructures.py
index 9490506..d82c2a6 100644
--- a/verktyg/datastructures.py
+++ b/verktyg/datastructures.py
@@ -777,6 +777,9 @@ class OrderedMultiDict(MultiDict):
         for key, value in iter_multi_items(mapping):
             OrderedMultiDict.add(self, key, value)
 
+    def deepcopy(self, memo=None):
+        return self.__class__(deepcopy(list(self.items(multi=True)), memo))
+
     def clear(self):
         dict.clear(self)
         self._first_bucket = self._last_bucket = None
@@ -920,6 +923,10 @@ class CombinedMultiDict(ImmutableMultiDictMixin, MultiDict):
         """Return a shallow copy of this object."""
         return self.__class__(self.dicts[:])
 
+    def deepcopy(self, memo=None):
+        """Return a deep copy of this object."""
+        return self.__class__(deepcopy(self.dicts, memo))
+
     def to_dict(self, flat=True):
         """Return the contents as regular dict.  If `flat` is `True` the
         returned dict will only have the first item present, if `flat` is
-- 
2.43.0


From 109e0902c5d554a9b4a1b3eafb9c92fef7547449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:01 +0000
Subject: [PATCH 47/93] fix: CombinedMultiDict.to_dict lost values of all but
 the first dict

---
 verktyg/datastructures.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/verktyg/datastructures.py b/verktyg/datastructures.py
index d82c2a6..5ea3526 100644
--- a/verktyg/datastructures.py
+++ b/verktyg/datastructures.py
@@ -939,10 +939,9 @@ class CombinedMultiDict(ImmutableMultiDictMixin, MultiDict):
         :return:
             A :class:`dict`
         """
-        rv = {}
-        for d in reversed(self.dicts):
-            rv.update(d.to_dict(flat))
-        return rv
+        if flat:
+            return dict(self.items())
+        return dict(self.lists())
 
     def __len__(self):
         return len(self._keys_impl())
-- 
2.43.0


From ba0a33a9f3ce8d77eddd01eb4639d6439b743ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:04 +0000
Subject: [PATCH 48/93] fix: all combined multi dicts compared equal

---
 verktyg/datastructures.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/verktyg/datastructures.py b/verktyg/datastructures.py
index 5ea3526..a18f3d3 100644
--- a/verktyg/datastructures.py
+++ b/verktyg/datastructures.py
@@ -849,6 +849,16 @@ class CombinedMultiDict(ImmutableMultiDictMixin, MultiDict):
     def __init__(self, dicts=None):
         self.dicts = dicts or []
 
+    def __eq__(self, other):
+        if not isinstance(other, MultiDict):
+            return NotImplemented
+        return dict(self.lists()) == dict(other.lists())
+
+    def __ne__(self, other):
+        return not self == other
+
+    __hash__ = ImmutableMultiDictMixin.__hash__
+
     @classmethod
     def fromkeys(cls):
         raise TypeError((
-- 
2.43.0


From 28e8c956a3c11cdd747e7145bd8bb4bba8a2c341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:39 +0000
Subject: [PATCH 49/93] fix: multi dicts failed with IndexError for keys
 without values

---
 verktyg/datastructures.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/verktyg/datastructures.py b/verktyg/datastructures.py
index a18f3d3..148d912 100644
--- a/verktyg/datastructures.py
+++ b/verktyg/datastructures.py
@@ -363,7 +363,9 @@ class MultiDict(TypeConversionDict):
             If the key does not exist.
         """
         if key in self:
-            return dict.__getitem__(self, key)[0]
+            values = dict.__getitem__(self, key)
+            if values:
+                return values[0]
         raise exceptions.BadRequestKeyError(key)
 
     def __setitem__(self, key, value):
@@ -489,7 +491,7 @@ class MultiDict(TypeConversionDict):
             if multi:
                 for value in values:
                     yield key, value
-            else:
+            elif values:
                 yield key, values[0]
 
     def lists(self):
@@ -508,7 +510,8 @@ class MultiDict(TypeConversionDict):
     def values(self):
         """Returns an iterator of the first value on every key's value list."""
         for values in dict.values(self):
-            yield values[0]
+            if values:
+                yield values[0]
 
     def listvalues(self):
         """Return an iterator of all values associated with a key.  Zipping
@@ -567,7 +570,10 @@ class MultiDict(TypeConversionDict):
             dictionary.
         """
         try:
-            return dict.pop(self, key)[0]
+            values = dict.pop(self, key)
+            if not values:
+                raise KeyError(key)
+            return values[0]
         except KeyError as e:
             if default is not _missing:
                 return default
@@ -576,8 +582,10 @@ class MultiDict(TypeConversionDict):
     def popitem(self):
         """Pop an item from the dict."""
         try:
-            item = dict.popitem(self)
-            return (item[0], item[1][0])
+            key, values = dict.popitem(self)
+            if not values:
+                raise KeyError(key)
+            return (key, values[0])
         except KeyError as e:
             raise exceptions.BadRequestKeyError(str(e))
 
-- 
2.43.0


From 1e5498c79b6b24dcc911d1c23ec4be38a4ccd739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:40 +0000
Subject: [PATCH 50/93] fix: unions of multi dicts were broken

---
 verktyg/datastructures.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/verktyg/datastructures.py b/verktyg/datastructures.py
index 148d912..d9179e2 100644
--- a/verktyg/datastructures.py
+++ b/verktyg/datastructures.py
@@ -553,6 +553,17 @@ class MultiDict(TypeConversionDict):
         for key, value in iter_multi_items(other_dict):
             MultiDict.add(self, key, value)
 
+    def __or__(self, other):
+        if not isinstance(other, dict):
+            return NotImplemented
+        rv = self.copy()
+        rv.update(other)
+        return rv
+
+    def __ior__(self, other):
+        self.update(other)
+        return self
+
     def pop(self, key, default=_missing):
         """Pop the first item for a list on the dict.  Afterwards the
         key is removed from the dict, so additional values are discarded:
@@ -867,6 +878,9 @@ class CombinedMultiDict(ImmutableMultiDictMixin, MultiDict):
 
     __hash__ = ImmutableMultiDictMixin.__hash__
 
+    def __or__(self, other):
+        return MultiDict(self) | other
+
     @classmethod
     def fromkeys(cls):
         raise TypeError((
-- 
2.43.0


From effd70987b24939a420561e9553a66def19ea057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:43 +0000
Subject: [PATCH 51/93] fix: updating a multi dict with itself never ended

---
 verktyg/datastructures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verktyg/datastructures.py b/verktyg/datastructures.py
index d9179e2..5712f04 100644
--- a/verktyg/datastructures.py
+++ b/verktyg/datastructures.py
@@ -550,7 +550,7 @@ class MultiDict(TypeConversionDict):
 
     def update(self, other_dict):
         """update() extends rather than replaces existing key lists."""
-        for key, value in iter_multi_items(other_dict):
+        for key, value in list(iter_multi_items(other_dict)):
             MultiDict.add(self, key, value)
 
     def __or__(self, other):
@@ -793,7 +793,7 @@ class OrderedMultiDict(MultiDict):
         )
 
     def update(self, mapping):
-        for key, value in iter_multi_items(mapping):
+        for key, value in list(iter_multi_items(mapping)):
             OrderedMultiDict.add(self, key, value)
 
     def deepcopy(self, memo=None):
-- 
2.43.0


From 97cdc81dd92532cfe847dc74e1e9ed78a43ef3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:00 +0000
Subject: [PATCH 52/93] fix: copies of authorization objects lost type and data

---
 verktyg/http/auth.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/verktyg/http/auth.py b/verktyg/http/auth.py
index 8e32395..8a280f2 100644
--- a/verktyg/http/auth.py
+++ b/verktyg/http/auth.py
@@ -30,6 +30,9 @@ class Authorization(datastructures.ImmutableDictMixin, dict):
         dict.__init__(self, data or {})
         self.type = auth_type
 
+    def __reduce_ex__(self, protocol):
+        return type(self), (self.type, dict(self))
+
     username = property(lambda x: x.get('username'), doc='''
         The username transmitted.  This is set for both basic and digest
         auth all the time.''')
-- 
2.43.0


From 254d82b8f9e3a8f25766e940d5243827f743b06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:02 +0000
Subject: [PATCH 53/93] fix: immutable headers failed with an AttributeError on
 clear()

---
 verktyg/http/basic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/verktyg/http/basic.py b/verktyg/http/basic.py
index 506fbdd..02c4623 100644
--- a/verktyg/http/basic.py
+++ b/verktyg/http/basic.py
@@ -527,6 +527,9 @@ class ImmutableHeadersMixin(object):
     def popitem(self):
         is_immutable(self)
 
+    def clear(self):
+        is_immutable(self)
+
     def setdefault(self, key, default):
         is_immutable(self)
 
-- 
2.43.0


From 36c0b789e30c3cf8e782bedbebfd456722c97043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:51 +0000
Subject: [PATCH 54/93] fix: headers created from lists were not checked for
 newlines

---
 verktyg/http/basic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/verktyg/http/basic.py b/verktyg/http/basic.py
index 02c4623..3266810 100644
--- a/verktyg/http/basic.py
+++ b/verktyg/http/basic.py
@@ -152,6 +152,8 @@ class Headers(object):
         self._list = []
         if defaults is not None:
             if isinstance(defaults, (list, Headers)):
+                for _, value in defaults:
+                    self._validate_value(unicodify_header_value(value))
                 self._list.extend(defaults)
             else:
                 self.extend(defaults)
-- 
2.43.0


From 1456018260079e95c58d119c183c16b4f8ff635f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:52 +0000
Subject: [PATCH 55/93] fix: headers lost values when extended with multi dicts

---
 verktyg/http/basic.py | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/verktyg/http/basic.py b/verktyg/http/basic.py
index 3266810..ad0863f 100644
--- a/verktyg/http/basic.py
+++ b/verktyg/http/basic.py
@@ -15,7 +15,7 @@ from email.utils import parsedate_tz
 from urllib.request import parse_http_list as _parse_list_header
 from datetime import datetime, timedelta
 
-from verktyg.datastructures import is_immutable
+from verktyg.datastructures import is_immutable, iter_multi_items
 from verktyg import exceptions
 
 
@@ -282,16 +282,8 @@ class Headers(object):
         """Extend the headers with a dict or an iterable yielding keys and
         values.
         """
-        if isinstance(iterable, dict):
-            for key, value in iterable.items():
-                if isinstance(value, (tuple, list)):
-                    for v in value:
-                        self.add(key, v)
-                else:
-                    self.add(key, value)
-        else:
-            for key, value in iterable:
-                self.add(key, value)
+        for key, value in iter_multi_items(iterable):
+            self.add(key, value)
 
     def __delitem__(self, key, _index_operation=True):
         if _index_operation and isinstance(key, (int, slice)):
-- 
2.43.0


From ab59400398fbaa2ef1de5d72f1ef11cd1661e44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:07 +0000
Subject: [PATCH 56/93] fix: extending headers with themselves never ended

---
 verktyg/http/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/http/basic.py b/verktyg/http/basic.py
index ad0863f..0c1f6a5 100644
--- a/verktyg/http/basic.py
+++ b/verktyg/http/basic.py
@@ -282,7 +282,7 @@ class Headers(object):
         """Extend the headers with a dict or an iterable yielding keys and
         values.
         """
-        for key, value in iter_multi_items(iterable):
+        for key, value in list(iter_multi_items(iterable)):
             self.add(key, value)
 
     def __delitem__(self, key, _index_operation=True):
-- 
2.43.0


From f3744aca91725993d7d56fbdda204cf9cc0bdd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:19 +0000
Subject: [PATCH 57/93] fix: is_secure was always None

---
 verktyg/requests.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/requests.py b/verktyg/requests.py
index 6965d3b..e54c125 100644
--- a/verktyg/requests.py
+++ b/verktyg/requests.py
@@ -435,7 +435,7 @@ class BaseRequest(object):
     def is_secure(self):
         """`True` if the request is made over an encrypted connection
         """
-        self.environ['wsgi.url_scheme'] == 'https',
+        return self.environ['wsgi.url_scheme'] == 'https'
 
     @property
     def is_multithread(self):
-- 
2.43.0


From 3cc43a5044c60c25f4c95b30a6bddd5abef25307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:21 +0000
Subject: [PATCH 58/93] fix: max_forwards failed for requests without the
 header

---
 verktyg/requests.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/requests.py b/verktyg/requests.py
index e54c125..3b2a841 100644
--- a/verktyg/requests.py
+++ b/verktyg/requests.py
@@ -616,7 +616,7 @@ class CommonRequestDescriptorsMixin(object):
         """
         try:
             return int(self.environ.get('HTTP_MAX_FORWARDS'))
-        except ValueError:
+        except (TypeError, ValueError):
             return None
 
     def _parse_content_type(self):
-- 
2.43.0


From 038dba8a3a7af4379922c1c60847645d860a48ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:29 +0000
Subject: [PATCH 59/93] fix: parse_options_header failed for values without a
 name

---
 verktyg/http/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/http/basic.py b/verktyg/http/basic.py
index 0c1f6a5..a2c78a2 100644
--- a/verktyg/http/basic.py
+++ b/verktyg/http/basic.py
@@ -683,7 +683,7 @@ def parse_options_header(value):
         return '', {}
 
     parts = _tokenize(';' + value)
-    name = next(parts)[0]
+    name = next(parts, ('', None))[0]
     extra = dict(parts)
     return name, extra
 
-- 
2.43.0


From 6c3a509df13c925cb039f13667f87953a9ae0eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:15 +0000
Subject: [PATCH 60/93] fix: uri_to_iri decoded characters that change the
 meaning of the url

---
 verktyg/urls.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/verktyg/urls.py b/verktyg/urls.py
index 983173b..256282b 100644
--- a/verktyg/urls.py
+++ b/verktyg/urls.py
@@ -13,6 +13,9 @@ from urllib.parse import (
 )
 
 
+# characters that urlsplit drops or that do not belong in any url
+_control_chars = ''.join(map(chr, range(0x20))) + '\x7f'
+
 _hexdigits = '0123456789ABCDEFabcdef'
 _hextobyte = dict(
     ((a + b).encode(), int(a + b, 16))
@@ -141,14 +144,16 @@ def uri_to_iri(uri, errors='replace'):
     if uri.username or uri.password:
         if uri.username:
             username = _safe_urlunquote(
-                uri.username, errors='strict', unsafe='/:%'
+                uri.username, errors='strict',
+                unsafe='/:%?#@[]' + _control_chars
             )
         else:
             username = ''
 
         if uri.password:
             password = _safe_urlunquote(
-                uri.password, errors='strict', unsafe='/:%'
+                uri.password, errors='strict',
+                unsafe='/:%?#@[]' + _control_chars
             )
             auth = '%s:%s' % (username, password)
         else:
@@ -157,13 +162,13 @@ def uri_to_iri(uri, errors='replace'):
         netloc = '%s@%s' % (auth, netloc)
 
     path = _safe_urlunquote(
-        uri.path, errors=errors, unsafe='%/;?'
+        uri.path, errors=errors, unsafe='%/;?#' + _control_chars
     )
     query = _safe_urlunquote(
-        uri.query, errors=errors, unsafe='%;/?:@&=+,$#'
+        uri.query, errors=errors, unsafe='%;/?:@&=+,$#' + _control_chars
     )
     fragment = _safe_urlunquote(
-        uri.fragment, errors=errors, unsafe='%;/?:@&=+,$#'
+        uri.fragment, errors=errors, unsafe='%;/?:@&=+,$#' + _control_chars
     )
     return urlunsplit(
         (uri.scheme, netloc, path, query, fragment)
-- 
2.43.0


From 2e8307f58e7b62291590f849772012c4051345ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:18 +0000
Subject: [PATCH 61/93] fix: append_slash_redirect led to other sites and paths

---
 verktyg/utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/verktyg/utils.py b/verktyg/utils.py
index ad20122..31027de 100644
--- a/verktyg/utils.py
+++ b/verktyg/utils.py
@@ -15,6 +15,7 @@ import re
 import os
 
 from html import escape
+from urllib.parse import quote as urlquote
 
 
 _filename_ascii_strip_re = re.compile(r'[^A-Za-z0-9_.-]')
@@ -228,8 +229,11 @@ def append_slash_redirect(environ, code=301):
     :param code:
         The status code for the redirect.
     """
-    new_path = environ['PATH_INFO'].strip('/') + '/'
-    query_string = environ.get('QUERY_STRING')
+    from verktyg.wsgi import get_query_string, wsgi_get_bytes
+
+    new_path = wsgi_get_bytes(environ['PATH_INFO']).strip(b'/') or b'.'
+    new_path = urlquote(new_path) + '/'
+    query_string = get_query_string(environ)
     if query_string:
         new_path += '?' + query_string
     return redirect(new_path, code)
-- 
2.43.0


From 2100472760bf8374625f7b5fbc075e40a7cf61f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:19 +0000
Subject: [PATCH 62/93] fix: exceptions without a code could not be converted
 to text

---
 verktyg/exceptions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/verktyg/exceptions.py b/verktyg/exceptions.py
index 373d2d5..b4a7082 100644
--- a/verktyg/exceptions.py
+++ b/verktyg/exceptions.py
@@ -150,7 +150,8 @@ class HTTPException(Exception):
         return HTTP_STATUS_CODES.get(self.code, 'Unknown Error')
 
     def __str__(self):
-        return '%d: %s' % (self.code, self.name)
+        code = self.code if self.code is not None else '???'
+        return '%s: %s' % (code, self.name)
 
     def __repr__(self):
         return '<%s \'%s\'>' % (self.__class__.__name__, self)
-- 
2.43.0


From 97c411eb7a77b8b687789c22d6cac1546b4b486e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:32 +0000
Subject: [PATCH 63/93] fix: append_slash_redirect lost empty segments of the
 path

---
 verktyg/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/verktyg/utils.py b/verktyg/utils.py
index 31027de..7080aa9 100644
--- a/verktyg/utils.py
+++ b/verktyg/utils.py
@@ -231,8 +231,9 @@ def append_slash_redirect(environ, code=301):
     """
     from verktyg.wsgi import get_query_string, wsgi_get_bytes
 
-    new_path = wsgi_get_bytes(environ['PATH_INFO']).strip(b'/') or b'.'
-    new_path = urlquote(new_path) + '/'
+    root = wsgi_get_bytes(environ.get('SCRIPT_NAME', '')).rstrip(b'/')
+    path = wsgi_get_bytes(environ['PATH_INFO']).strip(b'/')
+    new_path = urlquote(root + b'/' + path + (b'/' if path else b''))
     query_string = get_query_string(environ)
     if query_string:
         new_path += '?' + query_string
-- 
2.43.0


From abb5d36747beeb2278cbb6d34319424eebfaf3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:19 +0000
Subject: [PATCH 64/93] fix: multipart encoding of form fields failed

---
 verktyg/test.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/verktyg/test.py b/verktyg/test.py
index f13ae50..877a2e7 100644
--- a/verktyg/test.py
+++ b/verktyg/test.py
@@ -98,10 +98,10 @@ def stream_encode_multipart(
                         break
                     write_binary(chunk)
             else:
+                if not isinstance(value, (bytes, str)):
+                    value = str(value)
                 if isinstance(value, str):
-                    write(value)
-                else:
-                    write_binary(value)
+                    value = value.encode(charset)
                 write('\r\n\r\n')
                 write_binary(value)
             write('\r\n')
-- 
2.43.0


From 589d8cea56606f6d69e65026bd88cba2ba990ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:21 +0000
Subject: [PATCH 65/93] fix: environ builder lost all but the first value of
 query and form keys

---
 verktyg/test.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/verktyg/test.py b/verktyg/test.py
index 877a2e7..1a01886 100644
--- a/verktyg/test.py
+++ b/verktyg/test.py
@@ -24,7 +24,9 @@ from urllib.request import Request
 from http.cookiejar import CookieJar
 
 from verktyg.urls import url_fix, iri_to_uri
-from verktyg.datastructures import MultiDict, CombinedMultiDict
+from verktyg.datastructures import (
+    MultiDict, CombinedMultiDict, iter_multi_items,
+)
 from verktyg.http import Headers, FileStorage, dump_cookie
 from verktyg.wsgi import (
     get_host, get_current_url, ClosingIterator, wsgi_encoding_dance,
@@ -485,7 +487,9 @@ class EnvironBuilder(object):
     def _get_query_string(self):
         if self._query_string is None:
             if self._args is not None:
-                return urlencode(self._args, encoding=self.charset)
+                return urlencode(
+                    list(iter_multi_items(self._args)), encoding=self.charset
+                )
             return ''
         return self._query_string
 
@@ -571,7 +575,9 @@ class EnvironBuilder(object):
             )
             content_type += '; boundary="%s"' % boundary
         elif content_type == 'application/x-www-form-urlencoded':
-            values = urlencode(self.form, encoding=self.charset)
+            values = urlencode(
+                list(iter_multi_items(self.form)), encoding=self.charset
+            )
             values = values.encode('ascii')
             content_length = len(values)
             input_stream = BytesIO(values)
-- 
2.43.0


From 3c13552702def4fa01be61ea0fc496aa3a4e520c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:22 +0000
Subject: [PATCH 66/93] fix: environ builder closed only the first file of each
 key

---
 verktyg/test.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verktyg/test.py b/verktyg/test.py
index 1a01886..7541d5e 100644
--- a/verktyg/test.py
+++ b/verktyg/test.py
@@ -546,10 +546,10 @@ class EnvironBuilder(object):
         if self.closed:
             return
         try:
-            files = self.files.values()
+            files = self.files
         except AttributeError:
             files = ()
-        for f in files:
+        for _, f in iter_multi_items(files):
             try:
                 f.close()
             except Exception:
-- 
2.43.0


From a1611b1adff5123b9cdf7ad069c8e343a3cc32fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:25 +0000
Subject: [PATCH 67/93] fix: test client failed to follow redirects to
 subdomains

---
 verktyg/test.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/verktyg/test.py b/verktyg/test.py
index 7541d5e..c600e13 100644
--- a/verktyg/test.py
+++ b/verktyg/test.py
@@ -725,7 +725,9 @@ class Client(object):
         real_server_name = get_host(environ).rsplit(':', 1)[0].split('.')
 
         if self.allow_subdomain_redirects:
-            allowed = cur_server_name.endswith(real_server_name)
+            allowed = (
+                cur_server_name[-len(real_server_name):] == real_server_name
+            )
         else:
             allowed = cur_server_name == real_server_name
 
-- 
2.43.0


From 5b01e3486aef4181a3661b069866b619a15d232c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:42 +0000
Subject: [PATCH 68/93] fix: environ builder replaced escapes which are not
 valid text

---
 verktyg/test.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/verktyg/test.py b/verktyg/test.py
index c600e13..e0f6610 100644
--- a/verktyg/test.py
+++ b/verktyg/test.py
@@ -17,7 +17,9 @@ from random import random
 from itertools import chain
 from tempfile import TemporaryFile
 from io import BytesIO
-from urllib.parse import urlencode, urlunsplit, urlsplit, unquote as urlunquote
+from urllib.parse import (
+    urlencode, urlunsplit, urlsplit, unquote_to_bytes as urlunquote_to_bytes,
+)
 
 from urllib.request import Request
 
@@ -589,9 +591,9 @@ class EnvironBuilder(object):
             result.update(self.environ_base)
 
         def _path_encode(x):
-            return wsgi_encoding_dance(
-                urlunquote(x, self.charset), self.charset
-            )
+            return urlunquote_to_bytes(
+                x.encode(self.charset)
+            ).decode('latin1')
 
         qs = wsgi_encoding_dance(self.query_string)
 
-- 
2.43.0


From 9f8a324f843f10d5c1bb69d5039fb3a88a819f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:51 +0000
Subject: [PATCH 69/93] fix: requests with malformed accept headers failed

---
 verktyg/accept/__init__.py | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/verktyg/accept/__init__.py b/verktyg/accept/__init__.py
index a2736d6..bc6a3ea 100644
--- a/verktyg/accept/__init__.py
+++ b/verktyg/accept/__init__.py
@@ -77,6 +77,21 @@ class Acceptability(object):
         return False
 
 
+def _parse_accept(parse, header, default):
+    """Parses the header of a request.  Ones which are malformed or do not
+    list any ranges are treated as if they were not sent.
+    """
+    if header is None:
+        header = default
+    if not isinstance(header, str):
+        return header
+    try:
+        accept = parse(header)
+    except ValueError:
+        return parse(default)
+    return accept if list(accept) else parse(default)
+
+
 def select_representation(
     representations,
     accept='*/*', accept_language='*', accept_charset='*'
@@ -84,20 +99,13 @@ def select_representation(
     highest_acceptability = None
     best_representation = None
 
-    if accept is None:
-        accept = '*/*'
-    if isinstance(accept, str):
-        accept = parse_accept_header(accept)
-
-    if accept_language is None:
-        accept_language = '*'
-    if isinstance(accept_language, str):
-        accept_language = parse_accept_language_header(accept_language)
-
-    if accept_charset is None:
-        accept_charset = '*'
-    if isinstance(accept_charset, str):
-        accept_charset = parse_accept_charset_header(accept_charset)
+    accept = _parse_accept(parse_accept_header, accept, '*/*')
+    accept_language = _parse_accept(
+        parse_accept_language_header, accept_language, '*'
+    )
+    accept_charset = _parse_accept(
+        parse_accept_charset_header, accept_charset, '*'
+    )
 
     for representation in representations:
         try:
-- 
2.43.0


From 05859afc4fcab764d723eceeed202da2432e32cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:53 +0000
Subject: [PATCH 70/93] fix: empty elements of accept headers were not ignored

---
 verktyg/accept/_base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/verktyg/accept/_base.py b/verktyg/accept/_base.py
index 8ef135a..d9ed316 100644
--- a/verktyg/accept/_base.py
+++ b/verktyg/accept/_base.py
@@ -228,6 +228,9 @@ class Value(object):
 
 def split_accept_string(string):
     for accept_range in string.split(','):
+        if not accept_range.strip():
+            continue
+
         accept, *str_params = accept_range.split(';')
 
         params = {}
-- 
2.43.0


From 0ba2833a0d9109e7467744bbf69d667e4a54f63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:55 +0000
Subject: [PATCH 71/93] fix: media ranges with several slashes failed when
 matched

---
 verktyg/accept/content_type.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/verktyg/accept/content_type.py b/verktyg/accept/content_type.py
index a4837ac..e5e3ea0 100644
--- a/verktyg/accept/content_type.py
+++ b/verktyg/accept/content_type.py
@@ -50,7 +50,10 @@ _content_type_value_re = re.compile(
 
 class _ContentTypeRange(_base.Range):
     def _validate_value(self, value):
-        if _content_type_value_re.match(value) is None:
+        if (
+            _content_type_value_re.match(value) is None or
+            value.count('/') != 1
+        ):
             raise ValueError("Invalid value: %r" % value)
 
     @property
-- 
2.43.0


From 14c88db648ddb29d562eaa2d76138ce185dd0d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:57 +0000
Subject: [PATCH 72/93] fix: charsets were compared with regard to case

---
 verktyg/accept/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/accept/_base.py b/verktyg/accept/_base.py
index d9ed316..060b533 100644
--- a/verktyg/accept/_base.py
+++ b/verktyg/accept/_base.py
@@ -187,7 +187,7 @@ class Value(object):
     def _acceptability_for_option(self, option):
         if option.value == '*':
             exact_match = False
-        elif self.value == option.value:
+        elif self.value.lower() == option.value.lower():
             exact_match = True
         else:
             raise NotAcceptable()
-- 
2.43.0


From 848f55898f30b130482168fc82d2e692ac7c2542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:58 +0000
Subject: [PATCH 73/93] fix: media types were compared with regard to case

---
 verktyg/accept/content_type.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verktyg/accept/content_type.py b/verktyg/accept/content_type.py
index e5e3ea0..f7f42eb 100644
--- a/verktyg/accept/content_type.py
+++ b/verktyg/accept/content_type.py
@@ -115,14 +115,14 @@ class ContentType(_base.Value):
         return subtype
 
     def _acceptability_for_option(self, option):
-        if option.type == self.type:
+        if option.type.lower() == self.type.lower():
             type_matches = True
         elif option.type == '*':
             type_matches = False
         else:
             raise NotAcceptable()
 
-        if option.subtype == self.subtype:
+        if option.subtype.lower() == self.subtype.lower():
             subtype_matches = True
         elif option.subtype == '*':
             subtype_matches = False
-- 
2.43.0


From c00ab762c340e069ad99cceeba533036814c895c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:00 +0000
Subject: [PATCH 74/93] fix: languages were compared with regard to case

---
 verktyg/accept/language.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verktyg/accept/language.py b/verktyg/accept/language.py
index 52e6ead..71c6b34 100644
--- a/verktyg/accept/language.py
+++ b/verktyg/accept/language.py
@@ -52,10 +52,10 @@ class Language(_base.Value):
     match_type = LanguageAcceptability
 
     def _acceptability_for_option(self, option):
-        if self.value == option.value:
+        if self.value.lower() == option.value.lower():
             specificity = len(list(option.value.split('-')))
             tail = 0
-        elif self.value.startswith('%s-' % option.value):
+        elif self.value.lower().startswith('%s-' % option.value.lower()):
             specificity = len(list(option.value.split('-')))
             tail = len(list(self.value.split('-'))) - specificity
         elif option.value == '*':
-- 
2.43.0


From 477c0f0cee2cd4738cacce04fa2afd6edbe96218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:55 +0000
Subject: [PATCH 75/93] fix: numeric arguments of converters without a space in
 between were joined

---
 verktyg/routing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verktyg/routing.py b/verktyg/routing.py
index cd7a61f..d03e3a6 100644
--- a/verktyg/routing.py
+++ b/verktyg/routing.py
@@ -123,8 +123,8 @@ _converter_args_re = re.compile(r'''
     ((?P<name>\w+)\s*=\s*)?
     (?P<value>
         True|False|
-        \d+.\d+|
-        \d+.|
+        \d+\.\d+|
+        \d+\.|
         \d+|
         \w+|
         [urUR]?(?P<stringval>"[^"]*?"|'[^']*')
-- 
2.43.0


From 7dc735a9ea958e1675d3eeab1afc98c0c7ccfc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:50 +0000
Subject: [PATCH 76/93] fix: errors for methods which are not allowed did not
 list those that are

---
 verktyg/dispatch.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/verktyg/dispatch.py b/verktyg/dispatch.py
index ca00d45..450fba8 100644
--- a/verktyg/dispatch.py
+++ b/verktyg/dispatch.py
@@ -113,7 +113,10 @@ class Dispatcher(BindingFactory):
             if method == 'HEAD' and 'GET' in with_name:
                 with_method = with_name['GET']
             else:
-                raise MethodNotAllowed()
+                valid_methods = set(with_name)
+                if 'GET' in valid_methods:
+                    valid_methods.add('HEAD')
+                raise MethodNotAllowed(sorted(valid_methods))
 
         representation = select_representation(
             with_method,
-- 
2.43.0


From 1af865f0efc0eed5baaf1cb2f218c1827ab54b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:20 +0000
Subject: [PATCH 77/93] fix: query arguments with empty values were lost

---
 verktyg/requests.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/requests.py b/verktyg/requests.py
index 3b2a841..c8350c3 100644
--- a/verktyg/requests.py
+++ b/verktyg/requests.py
@@ -267,7 +267,7 @@ class BaseRequest(object):
             errors=self.encoding_errors,
         )
         return self.parameter_storage_class(parse_qsl(
-            qs, errors=self.encoding_errors,
+            qs, keep_blank_values=True, errors=self.encoding_errors,
         ))
 
     def get_data(self, cache=True, as_text=False):
-- 
2.43.0


From 55e3f857a30f34129bd629ee350a188c4aeea259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:10 +0000
Subject: [PATCH 78/93] fix: threads that match while the routes are being
 sorted saw none of them

---
 verktyg/routing.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/verktyg/routing.py b/verktyg/routing.py
index d03e3a6..25d42df 100644
--- a/verktyg/routing.py
+++ b/verktyg/routing.py
@@ -1250,9 +1250,15 @@ class URLMap(object):
         in the correct order after things changed.
         """
         if self._remap:
-            self._routes.sort(key=lambda x: x.match_compare_key())
-            for routes in self._routes_by_endpoint.values():
-                routes.sort(key=lambda x: x.build_compare_key())
+            # lists are empty while they are being sorted in place and other
+            # threads may already be using them
+            self._routes = sorted(
+                self._routes, key=lambda x: x.match_compare_key()
+            )
+            for endpoint, routes in self._routes_by_endpoint.items():
+                self._routes_by_endpoint[endpoint] = sorted(
+                    routes, key=lambda x: x.build_compare_key()
+                )
             self._remap = False
 
     def __repr__(self):
-- 
2.43.0


From b6ff8257582bb15472e646cd31cef0359e1e2e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:11 +0000
Subject: [PATCH 79/93] fix: query arguments of redirects ignored the charset
 of the url map

---
 verktyg/routing.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/verktyg/routing.py b/verktyg/routing.py
index 25d42df..0d11a94 100644
--- a/verktyg/routing.py
+++ b/verktyg/routing.py
@@ -1464,7 +1464,9 @@ class MapAdapter(object):
 
     def encode_query_args(self, query_args):
         if not isinstance(query_args, str):
-            query_args = urlencode(query_args, self.router.charset)
+            query_args = urlencode(
+                query_args, doseq=True, encoding=self.router.charset
+            )
         return query_args
 
     def make_redirect_url(self, path_info, query_args=None, domain_part=None):
-- 
2.43.0


From 8722a45bf53ea29099fed60bc275c6a81b7a2ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:13 +0000
Subject: [PATCH 80/93] fix: encoding_errors of the url map was ignored

---
 verktyg/routing.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/verktyg/routing.py b/verktyg/routing.py
index 0d11a94..30ff4fa 100644
--- a/verktyg/routing.py
+++ b/verktyg/routing.py
@@ -1234,7 +1234,9 @@ class URLMap(object):
         def _get_wsgi_string(name):
             val = environ.get(name)
             if val is not None:
-                return wsgi_decoding_dance(val, self.charset)
+                return wsgi_decoding_dance(
+                    val, self.charset, self.encoding_errors
+                )
 
         script_name = _get_wsgi_string('SCRIPT_NAME')
         path_info = _get_wsgi_string('PATH_INFO')
-- 
2.43.0


From d3b718d5cdc709200e8650b539b5a8834be3d094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:15 +0000
Subject: [PATCH 81/93] fix: secure_filename kept some device names on windows

---
 verktyg/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/verktyg/utils.py b/verktyg/utils.py
index 7080aa9..c79772f 100644
--- a/verktyg/utils.py
+++ b/verktyg/utils.py
@@ -21,7 +21,9 @@ from urllib.parse import quote as urlquote
 _filename_ascii_strip_re = re.compile(r'[^A-Za-z0-9_.-]')
 _windows_device_files = {
     'CON', 'AUX', 'COM1', 'COM2', 'COM3', 'COM4',
-    'LPT1', 'LPT2', 'LPT3', 'PRN', 'NUL',
+    'COM5', 'COM6', 'COM7', 'COM8', 'COM9',
+    'LPT1', 'LPT2', 'LPT3', 'LPT4', 'LPT5',
+    'LPT6', 'LPT7', 'LPT8', 'LPT9', 'PRN', 'NUL',
 }
 _missing = object()
 
-- 
2.43.0


From 6f333971c4433584643a55fd2460f5a170d15e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:51 +0000
Subject: [PATCH 82/93] fix: weak entity tags in if-none-match never matched
 strong ones

---
 verktyg/http/cache_control.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/verktyg/http/cache_control.py b/verktyg/http/cache_control.py
index d1001ae..947f7ae 100644
--- a/verktyg/http/cache_control.py
+++ b/verktyg/http/cache_control.py
@@ -640,6 +640,7 @@ def is_resource_modified(environ, etag=None, data=None, last_modified=None):
     if etag:
         if_none_match = parse_etags(environ.get('HTTP_IF_NONE_MATCH'))
         if if_none_match:
-            unmodified = if_none_match.contains_raw(etag)
+            # entity tags in this header are compared weakly
+            unmodified = if_none_match.contains_weak(unquote_etag(etag)[0])
 
     return not unmodified
-- 
2.43.0


From 7bcc3951677fafdd99ce22bea95149c611816a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:54 +0000
Subject: [PATCH 83/93] fix: ranges with q=nan were accepted and could not be
 ordered

---
 verktyg/accept/_base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/verktyg/accept/_base.py b/verktyg/accept/_base.py
index 060b533..db77337 100644
--- a/verktyg/accept/_base.py
+++ b/verktyg/accept/_base.py
@@ -55,6 +55,8 @@ class Range(object):
         self.value = value
 
         self.q = max(min(float(q), 1.0), 0.0)
+        if self.q != self.q:
+            raise ValueError("Invalid quality: %r" % q)
 
         if params is None:
             params = {}
-- 
2.43.0


From 678639f822611825fc952fae73aa2c8d5f8417c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:58 +0000
Subject: [PATCH 84/93] fix: read Retry-After headers which name no time as
 missing

---
 verktyg/responses.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/verktyg/responses.py b/verktyg/responses.py
index 389879a..b485d57 100644
--- a/verktyg/responses.py
+++ b/verktyg/responses.py
@@ -918,7 +918,10 @@ class CommonResponseDescriptorsMixin(object):
         if value is None:
             return
         elif value.isdigit():
-            return datetime.utcnow() + timedelta(seconds=int(value))
+            try:
+                return datetime.utcnow() + timedelta(seconds=int(value))
+            except (ValueError, OverflowError):
+                return
         return parse_date(value)
 
     def _set_retry_after(self, value):
-- 
2.43.0


From ea21ef08660d36aa4330ce39dfb1c351ccdf8c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:00 +0000
Subject: [PATCH 85/93] fix: read malformed lengths of uploaded files as
 missing

---
 verktyg/http/basic.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/verktyg/http/basic.py b/verktyg/http/basic.py
index a2c78a2..8c777b2 100644
--- a/verktyg/http/basic.py
+++ b/verktyg/http/basic.py
@@ -882,7 +882,10 @@ class FileStorage(object):
     @property
     def content_length(self):
         """The content-length sent in the header.  Usually not available"""
-        return int(self.headers.get('content-length') or 0)
+        try:
+            return int(self.headers.get('content-length') or 0)
+        except ValueError:
+            return 0
 
     @property
     def mimetype(self):
-- 
2.43.0


From 26d678d52c98c3b5db8d0484b664137901e041b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:14 +0000
Subject: [PATCH 86/93] fix: the test client did not close the responses of
 redirects which it followed

---
 verktyg/test.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/verktyg/test.py b/verktyg/test.py
index e0f6610..77366ed 100644
--- a/verktyg/test.py
+++ b/verktyg/test.py
@@ -811,6 +811,10 @@ class Client(object):
                 not follow_redirects
             ):
                 break
+            # only the last response is returned, and closed, by the caller
+            close_func = getattr(response[0], 'close', None)
+            if close_func is not None:
+                close_func()
             new_location = response[2]['location']
 
             new_redirect_entry = (new_location, status_code)
-- 
2.43.0


From 4db87b12e3d2b8751e862de5747c1ace5b5ed39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:16 +0000
Subject: [PATCH 87/93] fix: the test client did not close responses which fail
 before they start

---
 verktyg/test.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/verktyg/test.py b/verktyg/test.py
index 77366ed..4692e9e 100644
--- a/verktyg/test.py
+++ b/verktyg/test.py
@@ -958,6 +958,10 @@ def run_wsgi_app(app, environ, buffered=False):
                 buffer.append(next(app_iter))
             except StopIteration:
                 break
+            except BaseException:
+                if close_func is not None:
+                    close_func()
+                raise
         if buffer:
             app_iter = chain(buffer, app_iter)
         if close_func is not None and app_iter is not app_rv:
-- 
2.43.0


From 417e9481183ca62d4c4a59a05d40ef2d4c1e9119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:46 +0000
Subject: [PATCH 88/93] fix: shared directories of packages are not opened as
 files

---
 verktyg/wsgi.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/verktyg/wsgi.py b/verktyg/wsgi.py
index 3950ad0..d2d7c8f 100644
--- a/verktyg/wsgi.py
+++ b/verktyg/wsgi.py
@@ -448,6 +448,8 @@ class SharedDataMiddleware(object):
             path = posixpath.join(package_path, path)
             if not provider.has_resource(path):
                 return None, None
+            if provider.resource_isdir(path):
+                return None, None
             basename = posixpath.basename(path)
             if filesystem_bound:
                 return basename, self._opener(
-- 
2.43.0


From c1139820e2dad7b59ec588df17b9ce95142d0f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:47 +0000
Subject: [PATCH 89/93] fix: content length of shared files inside of archives

---
 verktyg/wsgi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/wsgi.py b/verktyg/wsgi.py
index d2d7c8f..cdaf57c 100644
--- a/verktyg/wsgi.py
+++ b/verktyg/wsgi.py
@@ -457,7 +457,7 @@ class SharedDataMiddleware(object):
             return basename, lambda: (
                 provider.get_resource_stream(manager, path),
                 loadtime,
-                0
+                len(provider.get_resource_string(manager, path))
             )
         return loader
 
-- 
2.43.0


From 31da6841ea7fb01882c48def1836107cd4b64040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:03 +0000
Subject: [PATCH 90/93] fix: numbers and any() choose the rules which take the
 values when building

---
 verktyg/routing.py | 35 ++++++++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/verktyg/routing.py b/verktyg/routing.py
index 30ff4fa..c593f76 100644
--- a/verktyg/routing.py
+++ b/verktyg/routing.py
@@ -875,8 +875,14 @@ class AnyConverter(BaseConverter):
 
     def __init__(self, router, *items):
         BaseConverter.__init__(self, router)
+        self.items = items
         self.regex = '(?:%s)' % '|'.join([re.escape(x) for x in items])
 
+    def to_url(self, value):
+        if str(value) not in self.items:
+            raise ValidationError()
+        return BaseConverter.to_url(self, value)
+
 
 class PathConverter(BaseConverter):
     """Like the default :class:`UnicodeConverter`, but it also matches
@@ -914,17 +920,33 @@ class NumberConverter(BaseConverter):
         if (self.fixed_digits and len(value) != self.fixed_digits):
             raise ValidationError()
         value = self.num_convert(value)
+        self.check_range(value)
+        return value
+
+    def check_range(self, value):
         if (
             (self.min is not None and value < self.min) or
             (self.max is not None and value > self.max)
         ):
             raise ValidationError()
-        return value
 
     def to_url(self, value):
-        value = self.num_convert(value)
+        try:
+            value = self.num_convert(value)
+        except (TypeError, ValueError, OverflowError):
+            raise ValidationError()
+        self.check_range(value)
+        value = self.format_number(value)
+        # numbers which do not match would end up at a different url
+        if not re.fullmatch(self.regex, value):
+            raise ValidationError()
+        return value
+
+    def format_number(self, value):
         if self.fixed_digits:
             value = ('%%0%sd' % self.fixed_digits) % value
+            if len(value) != self.fixed_digits:
+                raise ValidationError()
         return str(value)
 
 
@@ -970,8 +992,8 @@ class FloatConverter(NumberConverter):
     def __init__(self, router, min=None, max=None):
         NumberConverter.__init__(self, router, 0, min, max)
 
-    def to_url(self, value):
-        value = '{:f}'.format(Decimal(repr(self.num_convert(value))))
+    def format_number(self, value):
+        value = '{:f}'.format(Decimal(repr(value)))
         return value if '.' in value else value + '.0'
 
 
@@ -1460,7 +1482,10 @@ class MapAdapter(object):
                 r.suitable_for(values)
             ):
                 values.update(r.defaults)
-                domain_part, path = r.build(values)
+                rv = r.build(values)
+                if rv is None:
+                    continue
+                domain_part, path = rv
                 return self.make_redirect_url(
                     path, query_args, domain_part=domain_part)
 
-- 
2.43.0


From 2487eda1846d51c80e926124ba81e516861f9c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:39 +0000
Subject: [PATCH 91/93] fix: freezing a response keeps the close method of its
 iterable

---
 verktyg/responses.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/verktyg/responses.py b/verktyg/responses.py
index b485d57..d1dc8be 100644
--- a/verktyg/responses.py
+++ b/verktyg/responses.py
@@ -493,6 +493,7 @@ class BaseResponse(object):
         """
         # we explicitly set the length to a list of the *encoded* response
         # iterator.  Even if the implicit sequence conversion is disabled.
+        self.make_sequence()
         self.response = list(self.iter_encoded())
         self.headers['Content-Length'] = str(sum(map(len, self.response)))
 
-- 
2.43.0


From f763bc41763401916c78be3c76f79e3370bbf723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:48 +0000
Subject: [PATCH 92/93] fix: sort routes after adding some of them failed

---
 verktyg/routing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/routing.py b/verktyg/routing.py
index c593f76..411be05 100644
--- a/verktyg/routing.py
+++ b/verktyg/routing.py
@@ -1139,7 +1139,7 @@ class URLMap(object):
                 self._routes_by_endpoint.setdefault(
                     route.endpoint, []
                 ).append(route)
-        self._remap = True
+                self._remap = True
 
     def bind(
         self, server_name, script_name=None, subdomain=None,
-- 
2.43.0


From 49ccfe287b2819afd985f83060ab264c204a7ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:59 +0000
Subject: [PATCH 93/93] fix: length and time of shared files are those of the
 opened file

---
 verktyg/wsgi.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/verktyg/wsgi.py b/verktyg/wsgi.py
index cdaf57c..1f8ce1d 100644
--- a/verktyg/wsgi.py
+++ b/verktyg/wsgi.py
@@ -424,11 +424,14 @@ class SharedDataMiddleware(object):
         return True
 
     def _opener(self, filename):
-        return lambda: (
-            open(filename, 'rb'),
-            datetime.utcfromtimestamp(os.path.getmtime(filename)),
-            int(os.path.getsize(filename))
-        )
+        def opener():
+            f = open(filename, 'rb')
+            # the file may have been replaced since
+            stat = os.fstat(f.fileno())
+            return (
+                f, datetime.utcfromtimestamp(stat.st_mtime), stat.st_size
+            )
+        return opener
 
     def get_file_loader(self, filename):
         return lambda x: (os.path.basename(filename), self._opener(filename))
-- 
2.43.0

