From e758ef1119d5dea2e7677946e1140561e1015282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:50 +0000
Subject: [PATCH 01/57] fix: look builtins up in the builtins module namespace
 on every interpreter

---
 ngoschema/types/symbols.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ngoschema/types/symbols.py b/ngoschema/types/symbols.py
index 9eedeef..7b3a98b 100644
--- a/ngoschema/types/symbols.py
+++ b/ngoschema/types/symbols.py
@@ -3,6 +3,7 @@ from __future__ import absolute_import
 from __future__ import unicode_literals
 
 import logging
+import builtins
 import importlib
 import inspect
 import types
@@ -25,7 +26,7 @@ class Symbol(Primitive):
     """
     DOT = re.compile(r"\.")
     _pyType = None
-    _builtins = importlib.__builtins__
+    _builtins = vars(builtins)
 
     @staticmethod
     def _convert(self, value, **opts):
-- 
2.43.0


From fa43fabedd813b8395065987083644e7db402d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:18 +0000
Subject: [PATCH 02/57] fix: give an instance its own class back when the body
 of casted_as raises

---
 ngoschema/utils/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ngoschema/utils/utils.py b/ngoschema/utils/utils.py
index 41b55db..d9355bc 100644
--- a/ngoschema/utils/utils.py
+++ b/ngoschema/utils/utils.py
@@ -523,8 +523,10 @@ def casted_as(instance, cls):
     if cls not in instance_cls.__mro__:
         raise AttributeError("'%s' is not a parent of '%s'" % (cls, instance))
     instance.__class__ = cls
-    yield instance
-    instance.__class__ = instance_cls
+    try:
+        yield instance
+    finally:
+        instance.__class__ = instance_cls
 
 
 def class_casted_as(cls, other):
-- 
2.43.0


From 51fc5d9d8594e1d83ecfccbad2ca604bd7b651a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:18 +0000
Subject: [PATCH 03/57] fix: evaluate numbers in a local decimal context
 instead of replacing the caller's

---
 ngoschema/types/numerics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ngoschema/types/numerics.py b/ngoschema/types/numerics.py
index 737bbdf..d8cc5a6 100644
--- a/ngoschema/types/numerics.py
+++ b/ngoschema/types/numerics.py
@@ -47,8 +47,8 @@ class Number(Numeric):
 
     @staticmethod
     def _evaluate(self, value, **opts):
-        decimal.setcontext(self._dcmContext)
-        return Primitive._evaluate(self, value, **opts)
+        with decimal.localcontext(self._dcmContext):
+            return Primitive._evaluate(self, value, **opts)
 
 
 @register_type('integer')
-- 
2.43.0


From 7e27651d5d4e4ca306bafe57701bdc6e3bfa82dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:18 +0000
Subject: [PATCH 04/57] fix: resolve documents from the current store instead
 of a stale cache

---
 ngoschema/resolvers/uri_resolver.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/ngoschema/resolvers/uri_resolver.py b/ngoschema/resolvers/uri_resolver.py
index 1486102..e85457c 100644
--- a/ngoschema/resolvers/uri_resolver.py
+++ b/ngoschema/resolvers/uri_resolver.py
@@ -41,7 +41,6 @@ def domain_uri(name, domain=None):
     return "%s%s#" % (domain, clean_for_uri(name))
 
 
-@functools.lru_cache(128)
 def resolve_doc(uri_id, remote=False):
     uri, frag = urldefrag(uri_id)
     ret = UriResolver._doc_store.get(uri)
-- 
2.43.0


From 0e514b9a189ad0b48ff73866490cca0e9b271a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:57 +0000
Subject: [PATCH 05/57] fix: do not register the body of an HTTP error response
 as a document

---
 ngoschema/resolvers/uri_resolver.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/ngoschema/resolvers/uri_resolver.py b/ngoschema/resolvers/uri_resolver.py
index e85457c..a0c983d 100644
--- a/ngoschema/resolvers/uri_resolver.py
+++ b/ngoschema/resolvers/uri_resolver.py
@@ -41,6 +41,13 @@ def domain_uri(name, domain=None):
     return "%s%s#" % (domain, clean_for_uri(name))
 
 
+def _fetch(uri):
+    """ get a remote resource, an HTTP error status being an error and not a resource """
+    response = requests.get(uri)
+    response.raise_for_status()
+    return response
+
+
 def resolve_doc(uri_id, remote=False):
     uri, frag = urldefrag(uri_id)
     ret = UriResolver._doc_store.get(uri)
@@ -48,7 +55,7 @@ def resolve_doc(uri_id, remote=False):
         return ret
     if remote:
         # we could load the resource
-        doc = requests.get(uri).json()
+        doc = _fetch(uri).json()
         UriResolver.register_doc(doc, uri)
         return doc
     raise Exception('Unresolvable uri %s' % uri_id)
@@ -196,8 +203,8 @@ class UriResolver(RefResolver):
             if remote:
                 # we could load the resource
                 if not frag:
-                    return requests.get(uri).content
-                doc = requests.get(uri).json()
+                    return _fetch(uri).content
+                doc = _fetch(uri).json()
                 UriResolver.register_doc(doc, uri)
                 return resolve_fragment(doc, frag)
         except Exception as er:
-- 
2.43.0


From ddfd37967cb50e61b4fdcf70e337ba50641cf3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:57 +0000
Subject: [PATCH 06/57] fix: forget a type under construction when its
 construction fails

---
 ngoschema/managers/type_builder.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/ngoschema/managers/type_builder.py b/ngoschema/managers/type_builder.py
index 4ed9fbc..285efc4 100644
--- a/ngoschema/managers/type_builder.py
+++ b/ngoschema/managers/type_builder.py
@@ -80,19 +80,21 @@ class TypeBuilder(GenericClassRegistry):
             return _False()
         attrs = attrs or {}
         self._on_construction[id] = (schema, bases, attrs)
-        if '$ref' in schema:
-            schema = schema.copy()
-            ref = schema.pop('$ref')
-            cls = self.load(scope(ref, id))
-            if schema:
-                cls = cls.extend_type(id, **schema)
-        elif 'object' in schema.get('type', ''):
-            cls = ObjectProtocol.build(id, schema, bases, attrs)
-        elif 'array' in schema.get('type', ''):
-            cls = ArrayProtocol.build(id, schema, bases, attrs)
-        else:
-            cls = TypeProtocol.build(id, schema, bases, attrs)()
-        self._on_construction.pop(id)
+        try:
+            if '$ref' in schema:
+                schema = schema.copy()
+                ref = schema.pop('$ref')
+                cls = self.load(scope(ref, id))
+                if schema:
+                    cls = cls.extend_type(id, **schema)
+            elif 'object' in schema.get('type', ''):
+                cls = ObjectProtocol.build(id, schema, bases, attrs)
+            elif 'array' in schema.get('type', ''):
+                cls = ArrayProtocol.build(id, schema, bases, attrs)
+            else:
+                cls = TypeProtocol.build(id, schema, bases, attrs)()
+        finally:
+            self._on_construction.pop(id, None)
         self._registry[id] = cls
         NamespaceManager.register_ns(id)
         return cls
-- 
2.43.0


From ae6ff0bc8a9fdc8c3ac280437b0af91685f6845c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:43 +0000
Subject: [PATCH 07/57] fix: serialise the construction of types between
 threads

---
 ngoschema/managers/type_builder.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/ngoschema/managers/type_builder.py b/ngoschema/managers/type_builder.py
index 285efc4..bdc8fe0 100644
--- a/ngoschema/managers/type_builder.py
+++ b/ngoschema/managers/type_builder.py
@@ -4,6 +4,8 @@ from __future__ import unicode_literals
 
 import logging
 import copy
+import functools
+import threading
 from collections import OrderedDict, Mapping
 from jsonschema.validators import extend
 from jsonschema.exceptions import UndefinedTypeCheck
@@ -29,10 +31,20 @@ def untype_schema(schema):
     return schema
 
 
+def _synchronized(method):
+    """only let one thread at a time go through the types under construction."""
+    @functools.wraps(method)
+    def wrapper(self, *args, **kwargs):
+        with self._lock:
+            return method(self, *args, **kwargs)
+    return wrapper
+
+
 class TypeBuilder(GenericClassRegistry):
     _registry = {}
     _type_registry = {}
     _on_construction = {}
+    _lock = threading.RLock()
 
     def register_type(self, type):
         """Decorator to register a protocol based class """
@@ -62,6 +74,7 @@ class TypeBuilder(GenericClassRegistry):
     def get_type(self, id):
         return self._type_registry[id]
 
+    @_synchronized
     def build(self, id, schema=None, bases=(), attrs=None):
         from .namespace_manager import NamespaceManager
         from ..protocols import TypeProtocol, ObjectProtocol, ArrayProtocol, TypeProxy
@@ -99,6 +112,7 @@ class TypeBuilder(GenericClassRegistry):
         NamespaceManager.register_ns(id)
         return cls
 
+    @_synchronized
     def load(self, id):
         from ..protocols import TypeProxy
         if id not in self._registry:
-- 
2.43.0


From 5bdeba8d745d0746e80933af6f9ce416a954b445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:41 +0000
Subject: [PATCH 08/57] fix: declare the dependencies given by depend_on_prop
 without an external inspector

---
 ngoschema/decorators.py                | 7 ++++++-
 ngoschema/protocols/object_protocol.py | 3 +++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/ngoschema/decorators.py b/ngoschema/decorators.py
index 80bd467..2c477d2 100644
--- a/ngoschema/decorators.py
+++ b/ngoschema/decorators.py
@@ -275,7 +275,12 @@ def depend_on_prop(*prop_names):
     @wrapt.decorator
     def wrapper(wrapped, instance, args, kwargs):
         return wrapped(*args, **kwargs)
-    return wrapper
+
+    def to_decorate(wrapped):
+        # read when the class is built to declare the dependencies of the property
+        wrapped._dependOnProps = prop_names
+        return wrapper(wrapped)
+    return to_decorate
 
 
 class ClassPropertyDescriptor(object):
diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index 022d9c1..27b2411 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -695,6 +695,9 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
                     fun = [getattr(b, fname) for b in bases if hasattr(b, fname)]
                     fun = None if not fun else fun[0]
                 if fun:
+                    depend_on = getattr(fun, '_dependOnProps', None)
+                    if depend_on:
+                        dependencies[pname].update(depend_on)
                     insp = inspect_function(fun)
                     for d in insp.get('decorators', []):
                         if 'depend_on_prop' == d['name']:
-- 
2.43.0


From 451dd9b21175eb4582568fb28ac5c3cac676fdf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:22 +0000
Subject: [PATCH 09/57] fix: keep the dependencies of the class when a
 deserializer is initialised

---
 ngoschema/types/collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/types/collection.py b/ngoschema/types/collection.py
index 59e667a..9b85556 100644
--- a/ngoschema/types/collection.py
+++ b/ngoschema/types/collection.py
@@ -19,7 +19,7 @@ class CollectionDeserializer(Deserializer):
     def __init__(self, collType=None, dependencies=None, **opts):
         Deserializer.__init__(self, **opts)
         self._collType = collType or self._collType
-        self._dependencies = defaultdict(list, dependencies or {})
+        self._dependencies = defaultdict(list, dependencies or self._dependencies)
 
     @staticmethod
     def _call_order(self, value, **opts):
-- 
2.43.0


From 26c5a2ebc89a8ee48ee74617631e1db10bda2a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:42 +0000
Subject: [PATCH 10/57] fix: replace a file in one go when it is written, so
 that a failure keeps its content

The content is encoded before anything is touched and compared as bytes with
the file, so that a file with another or broken encoding can be overwritten and
the charset and binary options given for the call are respected.
---
 ngoschema/protocols/file_loader.py | 37 +++++++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/ngoschema/protocols/file_loader.py b/ngoschema/protocols/file_loader.py
index 43ab0da..a822479 100644
--- a/ngoschema/protocols/file_loader.py
+++ b/ngoschema/protocols/file_loader.py
@@ -7,6 +7,8 @@ import six
 import os
 import codecs
 import logging
+import shutil
+import uuid
 
 from ..decorators import assert_arg
 from ..utils import file_link_format
@@ -17,6 +19,29 @@ from .loader import Loader, Saver
 #logger = logging.getLogger(__name__)
 
 
+def _replace_file(filepath, data):
+    """
+    Give its new content to a file. The content is first completely written in a temporary file, so that the previous
+    one is still there if it can't be.
+    """
+    if filepath.exists() and not filepath.is_file():
+        # not a regular file (device, pipe,...) and not something to replace
+        with open(str(filepath), 'wb') as f:
+            return f.write(data)
+    tmp = str(filepath.with_name('.%s.tmp' % uuid.uuid4().hex))
+    try:
+        with open(tmp, 'xb') as f:
+            ret = f.write(data)
+        if filepath.exists():
+            shutil.copymode(str(filepath), tmp)
+        os.replace(tmp, str(filepath))
+    except BaseException:
+        if os.path.exists(tmp):
+            os.remove(tmp)
+        raise
+    return ret
+
+
 class FileLoader(Loader):
     _logger = logging.getLogger(__name__)
     _encoder = Serializer
@@ -106,18 +131,18 @@ class FileSaver(Saver, FileLoader):
     @assert_arg(2, Path)
     def _write_file(self, value, filepath, **opts):
         filepath = FileLoader.set_filepath(self, filepath)
-        binary = opts.pop('binary', self._binary)
-        mode = 'wb' if binary else 'w'
+        binary = opts.get('binary', self._binary)
+        data = value if binary else codecs.encode(value, opts.get('charset', self._charset))
         if not filepath.parent.exists():
             self._logger.info("creating missing directory '%s'", file_link_format(filepath.parent))
             os.makedirs(str(filepath.parent))
         if filepath.exists():
-            content = self.read_file(filepath)
-            if value == content:
+            with open(str(filepath), 'rb') as f:
+                content = f.read()
+            if data == content:
                 self._logger.info("File '%s' already exists with same content. Not overwriting.", file_link_format(filepath))
                 return value
-        with self._open_file(self, filepath, mode=mode, **opts) as f:
-            return f.write(value)
+        return _replace_file(filepath, data)
 
     @staticmethod
     @assert_arg(2, PathFileExists)
-- 
2.43.0


From c7b05ca0d6a4214979bb357ee82288f034c4316a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:42 +0000
Subject: [PATCH 11/57] fix: keep the binary option given to append to a file

---
 ngoschema/protocols/file_loader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/protocols/file_loader.py b/ngoschema/protocols/file_loader.py
index a822479..6a6badf 100644
--- a/ngoschema/protocols/file_loader.py
+++ b/ngoschema/protocols/file_loader.py
@@ -148,7 +148,7 @@ class FileSaver(Saver, FileLoader):
     @assert_arg(2, PathFileExists)
     def _append_file(self, value, filepath, **opts):
         filepath = FileLoader.set_filepath(self, filepath)
-        binary = opts.pop('binary', self._binary)
+        binary = opts.get('binary', self._binary)
         mode = 'ab' if binary else 'a'
         with self._open_file(self, filepath, mode=mode, **opts) as f:
             return f.write(value)
-- 
2.43.0


From 5a0358036233d977d02f27bd6ffce6adfe900163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:01 +0000
Subject: [PATCH 12/57] fix: make the content of a file depend on its binary
 flag

---
 ngoschema/models/files.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ngoschema/models/files.py b/ngoschema/models/files.py
index 077d2ea..e174028 100644
--- a/ngoschema/models/files.py
+++ b/ngoschema/models/files.py
@@ -56,7 +56,7 @@ class File(with_metaclass(SchemaMetaclass, FileSaver, Entity)):
     def set_binary(self, binary):
         self._binary = binary
 
-    @depend_on_prop('filepath')
+    @depend_on_prop('filepath', 'binary')
     def get_contentRaw(self):
         fp = self.filepath
         if fp and fp.exists():
@@ -155,7 +155,7 @@ class Document(with_metaclass(SchemaMetaclass, UriFile)):
         self._encoder = encoder or self._encoder
         self._encoder.__init__(self, **opts)
 
-    @depend_on_prop('uri', 'filepath')
+    @depend_on_prop('uri', 'filepath', 'binary')
     def get_contentRaw(self):
         if self.filepath:
             return FileSaver._load_file(self, self.filepath)
-- 
2.43.0


From 1a1f0792d456b51f8e99572d3faf85a1c874de70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:01 +0000
Subject: [PATCH 13/57] fix: create the file of a FileInfo from its path

---
 ngoschema/models/files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/models/files.py b/ngoschema/models/files.py
index e174028..dcfaac1 100644
--- a/ngoschema/models/files.py
+++ b/ngoschema/models/files.py
@@ -73,7 +73,7 @@ class FileInfo(with_metaclass(SchemaMetaclass)):
     _lazyLoading = True
 
     def __init__(self, file=None, filepath=None, **opts):
-        file = file or File(filepath)
+        file = file or File(filepath=filepath)
         ObjectProtocol.__init__(self, file=file, **opts)
 
     def get_dateCreated(self):
-- 
2.43.0


From d64abcd45c7f57c2b42f5a61405d1a87b6a39f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:27 +0000
Subject: [PATCH 14/57] fix: read a file again once it has been written through
 its object

---
 ngoschema/models/files.py          |  3 +++
 ngoschema/protocols/file_loader.py | 15 ++++++++++++---
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/ngoschema/models/files.py b/ngoschema/models/files.py
index dcfaac1..7926423 100644
--- a/ngoschema/models/files.py
+++ b/ngoschema/models/files.py
@@ -53,6 +53,9 @@ class File(with_metaclass(SchemaMetaclass, FileSaver, Entity)):
     def set_filepath(self, filepath):
         return FileSaver.set_filepath(self, filepath)
 
+    def _touch_content(self):
+        self._items_touch('contentRaw')
+
     def set_binary(self, binary):
         self._binary = binary
 
diff --git a/ngoschema/protocols/file_loader.py b/ngoschema/protocols/file_loader.py
index 6a6badf..7eb86a2 100644
--- a/ngoschema/protocols/file_loader.py
+++ b/ngoschema/protocols/file_loader.py
@@ -123,6 +123,9 @@ class FileSaver(Saver, FileLoader):
         FileLoader.__init__(self, **opts)
         self._append = append
 
+    def _touch_content(self):
+        """ called when the content of the file might have been changed """
+
     #def set_filepath(self, filepath):
     #    self._filepath = filepath = Path.convert(filepath) if filepath else None
     #    return filepath
@@ -142,7 +145,10 @@ class FileSaver(Saver, FileLoader):
             if data == content:
                 self._logger.info("File '%s' already exists with same content. Not overwriting.", file_link_format(filepath))
                 return value
-        return _replace_file(filepath, data)
+        try:
+            return _replace_file(filepath, data)
+        finally:
+            self._touch_content()
 
     @staticmethod
     @assert_arg(2, PathFileExists)
@@ -150,8 +156,11 @@ class FileSaver(Saver, FileLoader):
         filepath = FileLoader.set_filepath(self, filepath)
         binary = opts.get('binary', self._binary)
         mode = 'ab' if binary else 'a'
-        with self._open_file(self, filepath, mode=mode, **opts) as f:
-            return f.write(value)
+        try:
+            with self._open_file(self, filepath, mode=mode, **opts) as f:
+                return f.write(value)
+        finally:
+            self._touch_content()
 
     @staticmethod
     @assert_arg(2, Path)
-- 
2.43.0


From 9e5a829f6daf637a8eaeeb29dbaf9ea5ab15ead1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:59 +0000
Subject: [PATCH 15/57] fix: give the negated value when reading a negated
 alias

---
 ngoschema/protocols/object_protocol.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index 27b2411..b85cfd6 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -294,7 +294,7 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
             if name not in self._propertiesAllowed:
                 return MutableMapping.__getattribute__(self, name)
                 return self.__dict__[name]
-        op = lambda x: neg(x) if name in self._aliasesNegated else x
+        op = neg if name in self._aliasesNegated else lambda x: x
         name = self._aliasesNegated.get(name, name)
         name = self._aliases.get(name, name)
         raw = self._propertiesTranslation.get(name, name)
@@ -396,7 +396,7 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
         desc = self._relationshipsDescriptor.get(key)
         if desc:
             return desc.__get__(self)
-        op = lambda x: neg(x) if key in self._aliasesNegated else x
+        op = neg if key in self._aliasesNegated else lambda x: x
         key = self._aliasesNegated.get(key, key)
         key = self._aliases.get(key, key)
         raw, trans = self._properties_raw_trans(key)
-- 
2.43.0


From 2dcf6bfb3307dcbbb757522990c9e5ea53076ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:35 +0000
Subject: [PATCH 16/57] fix: keep the previous value when an assignment is
 rejected

---
 ngoschema/protocols/collection_protocol.py | 22 ++++++++++++++++++----
 ngoschema/protocols/object_protocol.py     | 19 ++++++++++++-------
 2 files changed, 30 insertions(+), 11 deletions(-)

diff --git a/ngoschema/protocols/collection_protocol.py b/ngoschema/protocols/collection_protocol.py
index aa57d40..1be81ac 100644
--- a/ngoschema/protocols/collection_protocol.py
+++ b/ngoschema/protocols/collection_protocol.py
@@ -97,6 +97,14 @@ class CollectionProtocol(Collection):
             if item in s:
                 self._items_touch(d)
 
+    def _items_state(self, item):
+        return self._data[item], self._dataValidated[item], self._itemsInputs[item]
+
+    def _items_restore(self, item, state):
+        # give back to an item the state it had before a rejected assignment
+        self._items_touch(item)
+        self._data[item], self._dataValidated[item], self._itemsInputs[item] = state
+
     def _items_inputs_evaluate(self, item):
         ret = {}
         t = self._items_type(self, item)
@@ -142,10 +150,16 @@ class CollectionProtocol(Collection):
         return t._serialize(t, v, **opts)
 
     def __setitem__(self, item, value):
-        self._data[item] = value
-        if not self._lazyLoading:
-            self._itemsInputs[item] = self._items_inputs_evaluate(item)
-            self._set_dataValidated(item, self._items_evaluate(item))
+        state = self._items_state(item)
+        try:
+            self._items_touch(item)
+            self._data[item] = value
+            if not self._lazyLoading:
+                self._itemsInputs[item] = self._items_inputs_evaluate(item)
+                self._set_dataValidated(item, self._items_evaluate(item))
+        except BaseException:
+            self._items_restore(item, state)
+            raise
 
     def __getitem__(self, item):
         if self._dataValidated[item] is None:
diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index b85cfd6..e78b858 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -95,13 +95,18 @@ class PropertyDescriptor:
             key = self.pname
             if key in obj._readOnly:
                 raise AttributeError("'%s' is read only" % key)
-            obj._set_data(key, value)
-            if not obj._lazyLoading:
-                obj._itemsInputs[key] = obj._items_inputs_evaluate(key)
-                iopts = {'validate': False} if key in obj._notValidated else {}
-                obj._set_dataValidated(key, obj._items_evaluate(key, **iopts))
-                if self.fset:
-                    self.fset(obj, obj._dataValidated[key])
+            state = obj._items_state(key)
+            try:
+                obj._set_data(key, value)
+                if not obj._lazyLoading:
+                    obj._itemsInputs[key] = obj._items_inputs_evaluate(key)
+                    iopts = {'validate': False} if key in obj._notValidated else {}
+                    obj._set_dataValidated(key, obj._items_evaluate(key, **iopts))
+                    if self.fset:
+                        self.fset(obj, obj._dataValidated[key])
+            except BaseException:
+                obj._items_restore(key, state)
+                raise
         except Exception as er:
             obj._logger.error(er, exc_info=True)
             raise
-- 
2.43.0


From 92b0088223f810996e08a0973b4d95ad6669e5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:35 +0000
Subject: [PATCH 17/57] fix: keep an array as it was when a change of its items
 is rejected, and bound insertions as lists do

---
 ngoschema/protocols/array_protocol.py | 58 ++++++++++++++++++++++-----
 1 file changed, 49 insertions(+), 9 deletions(-)

diff --git a/ngoschema/protocols/array_protocol.py b/ngoschema/protocols/array_protocol.py
index a58cf6a..4a4a82e 100644
--- a/ngoschema/protocols/array_protocol.py
+++ b/ngoschema/protocols/array_protocol.py
@@ -72,16 +72,56 @@ class ArrayProtocol(CollectionProtocol, Array, MutableSequence):
     def __len__(self):
         return len(self._data)
 
+    def __setitem__(self, item, value):
+        if not isinstance(item, slice):
+            return CollectionProtocol.__setitem__(self, item, value)
+        values = list(value)
+        states = self._items_state(slice(None))
+        try:
+            for a, new in zip((self._data, self._dataValidated, self._itemsInputs),
+                              (values, [None] * len(values), [{} for v in values])):
+                a[item] = new
+            CollectionProtocol._touch(self)
+            if not self._lazyLoading:
+                for i, v in enumerate(self._dataValidated):
+                    if v is None:
+                        self[i]
+            self._validate(self, self, items=False)
+        except BaseException:
+            self._items_restore_all(states)
+            raise
+
+    def __delitem__(self, index):
+        states = self._items_state(slice(None))
+        try:
+            CollectionProtocol._touch(self)
+            CollectionProtocol.__delitem__(self, index)
+        except BaseException:
+            self._items_restore_all(states)
+            raise
+
+    def _items_restore_all(self, states):
+        CollectionProtocol._touch(self)
+        self._data[:], self._dataValidated[:], self._itemsInputs[:] = states
+
     def insert(self, item, value):
-        self._itemsInputs.insert(item, {})
-        self._dataValidated.insert(item, None)
-        self._data.insert(item, value)
-        if not self._lazyLoading:
-            self._itemsInputs[item] = self._items_inputs_evaluate(item)
-            self._set_dataValidated(item, self._items_evaluate(item))
-        elif isinstance(value, TypeProtocol):
-            value.set_context(self._context)
-        self._validate(self, value, items=False)
+        states = self._items_state(slice(None))
+        # same conventions as for a list: negative index from the end, bounded to the array limits
+        item = slice(item, None).indices(len(self))[0]
+        try:
+            CollectionProtocol._touch(self)
+            self._itemsInputs.insert(item, {})
+            self._dataValidated.insert(item, None)
+            self._data.insert(item, value)
+            if not self._lazyLoading:
+                self._itemsInputs[item] = self._items_inputs_evaluate(item)
+                self._set_dataValidated(item, self._items_evaluate(item))
+            elif isinstance(value, TypeProtocol):
+                value.set_context(self._context)
+            self._validate(self, value, items=False)
+        except BaseException:
+            self._items_restore_all(states)
+            raise
 
     def _str_list(self):
         if self._str is None:
-- 
2.43.0


From 006a2a13248cd98f060126951d32094a2fb88c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:04 +0000
Subject: [PATCH 18/57] fix: refresh the properties computed from an array when
 its items change

---
 ngoschema/protocols/collection_protocol.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ngoschema/protocols/collection_protocol.py b/ngoschema/protocols/collection_protocol.py
index 1be81ac..ad97514 100644
--- a/ngoschema/protocols/collection_protocol.py
+++ b/ngoschema/protocols/collection_protocol.py
@@ -105,20 +105,25 @@ class CollectionProtocol(Collection):
         self._items_touch(item)
         self._data[item], self._dataValidated[item], self._itemsInputs[item] = state
 
+    def _items_input(self, item):
+        v = self[item]
+        # an array is modified in place: keep its items to be able to see that it changed
+        return list(v) if isinstance(v, CollectionProtocol) and v.is_array_primitive() else v
+
     def _items_inputs_evaluate(self, item):
         ret = {}
         t = self._items_type(self, item)
         # treat dependencies
         for k in self._dependencies.get(item, []):
             try:
-                ret[k] = self[k]
+                ret[k] = self._items_input(k)
             except Exception as er:
                 self._logger.error(er, exc_info=True)
         # treat data
         if t.is_primitive() and not t._rawLiterals:
             for k in t._inputs(t, self._data[item]):
                 try:
-                    ret[k] = self[k]
+                    ret[k] = self._items_input(k)
                 except Exception as er:
                     self._logger.error(er, exc_info=True)
         return ret
-- 
2.43.0


From 6cad72f3cbfd332b85fe31170592492e6f30a261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:35 +0000
Subject: [PATCH 19/57] fix: make the result of a query independent from the
 queries derived from it

---
 ngoschema/query.py | 44 ++++++++++++++++++++++++++++----------------
 1 file changed, 28 insertions(+), 16 deletions(-)

diff --git a/ngoschema/query.py b/ngoschema/query.py
index c40a1a9..2267446 100644
--- a/ngoschema/query.py
+++ b/ngoschema/query.py
@@ -209,6 +209,18 @@ def search_object_non_rec(obj, path, *attrs, **attrs_value):
             p_cur, cur = p_par, cur._parent
 
 
+class _Selection(object):
+    """Selection among the elements of an iterable, made again for each iteration."""
+
+    def __init__(self, iterable, *attrs, **options):
+        self._iterable = iterable
+        self._attrs = attrs
+        self._options = options
+
+    def __iter__(self):
+        return Query._filter_or_exclude(self._iterable, *self._attrs, **self._options)
+
+
 class Query(object):
 
     def __init__(self, iterable, distinct=False, order_by=False, reverse=False):
@@ -342,9 +354,9 @@ class Query(object):
                distinct=None,
                **attrs_value):
         return Query(
-                (x for x in Query._filter_or_exclude(self._iterable, *attrs,
-                                                    distinct=distinct or self._distinct,
-                                                    **attrs_value)),
+                _Selection(self._iterable, *attrs,
+                           distinct=distinct or self._distinct,
+                           **attrs_value),
                 order_by=order_by or self._order_by,
                 reverse=reverse or self._reverse,
                 distinct=distinct or self._distinct)
@@ -356,10 +368,10 @@ class Query(object):
                 distinct=None,
                 **attrs_value):
         return Query(
-                (x for x in Query._filter_or_exclude(self._iterable, *attrs,
-                                                    negate=True,
-                                                    distinct=distinct or self._distinct,
-                                                    **attrs_value)),
+                _Selection(self._iterable, *attrs,
+                           negate=True,
+                           distinct=distinct or self._distinct,
+                           **attrs_value),
                 order_by=order_by or self._order_by,
                 reverse=reverse or self._reverse,
                 distinct=distinct or self._distinct)
@@ -371,10 +383,10 @@ class Query(object):
                distinct=None,
                **attrs_value):
         return Query(
-                (x for x in Query._filter_or_exclude(self._iterable, *attrs,
-                                                    any_of=True,
-                                                    distinct=distinct or self._distinct,
-                                                    **attrs_value)),
+                _Selection(self._iterable, *attrs,
+                           any_of=True,
+                           distinct=distinct or self._distinct,
+                           **attrs_value),
                 order_by=order_by or self._order_by,
                 reverse=reverse or self._reverse,
                 distinct=distinct or self._distinct)
@@ -386,11 +398,11 @@ class Query(object):
                 distinct=None,
                 **attrs_value):
         return Query(
-                (x for x in Query._filter_or_exclude(self._iterable, *attrs,
-                                                    any_of=True,
-                                                    negate=True,
-                                                    distinct=distinct or self._distinct,
-                                                    **attrs_value)),
+                _Selection(self._iterable, *attrs,
+                           any_of=True,
+                           negate=True,
+                           distinct=distinct or self._distinct,
+                           **attrs_value),
                 order_by=order_by or self._order_by,
                 reverse=reverse or self._reverse,
                 distinct=distinct or self._distinct)
-- 
2.43.0


From b863db2f9c19fe6eaed802d834319e305c53c446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:35 +0000
Subject: [PATCH 20/57] fix: do not change the criteria of a query while
 testing an object

---
 ngoschema/query.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ngoschema/query.py b/ngoschema/query.py
index 2267446..dbe846e 100644
--- a/ngoschema/query.py
+++ b/ngoschema/query.py
@@ -134,6 +134,7 @@ class Filter(object):
         test = not self.anyOf
         for k, v2 in self.attrs_value.items():
             ks, ops, ops_negate = self.attrs_ops[k]
+            ks, ops = list(ks), list(ops)  # they are modified for this object
             o = get_descendant(obj, ks)
             if o is None:
                 # breaking the look we never go in the for/ELSE statement where
-- 
2.43.0


From f17a70a4e7bc453d7c78d7e1f25ba267b70e92ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:05 +0000
Subject: [PATCH 21/57] fix: order, reverse and unite the results of queries
 without altering them

---
 ngoschema/query.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/ngoschema/query.py b/ngoschema/query.py
index dbe846e..76c78d3 100644
--- a/ngoschema/query.py
+++ b/ngoschema/query.py
@@ -415,16 +415,16 @@ class Query(object):
     @property
     def result_cache(self):
         if self._result_cache is None:
-            self._result_cache = list(self._iterable)
+            res = list(self._iterable)
 
             ob = self._order_by
             if ob:
                 from .utils.utils import split_path
                 ks = split_path(ob) if isinstance(ob, str) else ob
-                self._result_cache = sorted(self._result_cache,
-                                            lambda x: get_descendant(x, ks))
+                res = sorted(res, key=lambda x: get_descendant(x, ks))
             if self._reverse:
-                self._result_cache = reversed(self._result_cache)
+                res = list(reversed(res))
+            self._result_cache = res
         return self._result_cache
 
     def __getitem__(self, k):
@@ -449,7 +449,7 @@ class Query(object):
         return False
 
     def union(self, *others):
-        res = self.result_cache
+        res = list(self.result_cache)
         for o in others:
             res += o.result_cache
         return Query(res, self._distinct, self._order_by)
@@ -496,14 +496,12 @@ class Query(object):
 
     def last(self):
         try:
-            return self[-1]
+            return self.result_cache[-1]
         except IndexError:
             return None
 
     def reverse(self):
-        ret = self._chain()
-        ret._iterable = reversed(self.result_cache)
-        return ret
+        return Query(list(reversed(self.result_cache)), self._distinct)
 
     def count(self):
         return len(self)
-- 
2.43.0


From 79e616e2c338954374017f52715ce7c0a40b01bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:08 +0000
Subject: [PATCH 22/57] fix: translate names from the current namespaces
 instead of a stale cache

---
 ngoschema/managers/namespace_manager.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ngoschema/managers/namespace_manager.py b/ngoschema/managers/namespace_manager.py
index e420217..a407207 100644
--- a/ngoschema/managers/namespace_manager.py
+++ b/ngoschema/managers/namespace_manager.py
@@ -34,8 +34,6 @@ class NamespaceManager(Registry):
     _builder_ns = {}
 
     def __init__(self, *parents, **local):
-        self._get_id_cname = lru_cache(1024)(self._get_id_cname_cached)
-        self._get_cname_id = lru_cache(1024)(self._get_cname_id_cached)
         self._local = dict(local)
         self._local.setdefault('', self._current_ns_uri)
         self._registry = ChainMap(self._local, *parents)
@@ -100,7 +98,7 @@ class NamespaceManager(Registry):
             return rcn
         return cname
 
-    def _get_id_cname_cached(self, ref, current_ns):
+    def _get_id_cname(self, ref, current_ns):
         ns_cn, ns_uri = self._find_ns_by_uri(ref)
         #ns = ChainMap(self._registry, NamespaceManager.builder_namespaces(), NamespaceManager.available_namespaces())
         #ns_names = sorted([k for k, uri in ns.items() if ref.startswith(uri)], reverse=True)
@@ -128,7 +126,7 @@ class NamespaceManager(Registry):
             id = id[len(u.strip('#')):]
         return id
 
-    def _get_cname_id_cached(self, cname, current_ns):
+    def _get_cname_id(self, cname, current_ns):
         #ns = ChainMap(self._registry, NamespaceManager.builder_namespaces(), NamespaceManager.available_namespaces())
         # iterate on namespace sorted from the longest to get the most qualified
         #ns_names = sorted([k for k, uri in ns.items() if cname.startswith(k+'.') or k == cname], reverse=True)
-- 
2.43.0


From da16382a854d22936519866536887eeafdaee9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:18 +0000
Subject: [PATCH 23/57] fix: refuse the arguments given to a scoped session
 already present with the intended error

---
 ngoschema/session.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ngoschema/session.py b/ngoschema/session.py
index 3e33711..c8acdc5 100644
--- a/ngoschema/session.py
+++ b/ngoschema/session.py
@@ -10,7 +10,9 @@ from __future__ import unicode_literals
 
 import weakref
 import functools
+import logging
 
+from sqlalchemy import exc as sa_exc
 from sqlalchemy.util import ScopedRegistry, ThreadLocalRegistry
 
 from . import utils
@@ -346,7 +348,7 @@ class scoped_session(object):
         """
 
         if self.registry.has():
-            self._logger.warning(
+            logging.getLogger(__name__).warning(
                 "At least one scoped session is already present. "
                 " configure() can not affect sessions that have "
                 "already been created."
-- 
2.43.0


From 749d08da6b409e01a751a533aff188340cbe9aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:45 +0000
Subject: [PATCH 24/57] fix: forget the content of a file deleted through its
 document

---
 ngoschema/models/files.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ngoschema/models/files.py b/ngoschema/models/files.py
index 7926423..f230621 100644
--- a/ngoschema/models/files.py
+++ b/ngoschema/models/files.py
@@ -193,6 +193,7 @@ class Document(with_metaclass(SchemaMetaclass, UriFile)):
         if not self.filepath.exists():
             raise ValueError('%s does not exist.' % self.filepath)
         os.remove(str(self.filepath))
+        self._touch_content()
 
     def _serialize(self, value, **opts):
         self._encoder._serialize(self, value, **opts)
-- 
2.43.0


From 81b1f1c29c6af84c6fb229f70351db2c5847b518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:55 +0000
Subject: [PATCH 25/57] fix: write a document in the mode last assigned, even
 when it has not been read since

---
 ngoschema/models/files.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ngoschema/models/files.py b/ngoschema/models/files.py
index f230621..8b06c39 100644
--- a/ngoschema/models/files.py
+++ b/ngoschema/models/files.py
@@ -161,7 +161,7 @@ class Document(with_metaclass(SchemaMetaclass, UriFile)):
     @depend_on_prop('uri', 'filepath', 'binary')
     def get_contentRaw(self):
         if self.filepath:
-            return FileSaver._load_file(self, self.filepath)
+            return FileSaver._load_file(self, self.filepath, binary=self.binary)
         if self.uri:
             return UriResolver._resolve(self, self.uri)
 
@@ -215,6 +215,7 @@ class Document(with_metaclass(SchemaMetaclass, UriFile)):
 
     def write(self, content, append=False, **opts):
         if self.filepath:
+            opts.setdefault('binary', self.binary)
             if append:
                 self._append_file(self, content, self.filepath, **opts)
             else:
-- 
2.43.0


From ec9c1eae51cfd08f9ebde523e17dc782a8e85384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:10 +0000
Subject: [PATCH 26/57] fix: do not register the body of an HTTP error response
 met by a reference

---
 ngoschema/resolvers/uri_resolver.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ngoschema/resolvers/uri_resolver.py b/ngoschema/resolvers/uri_resolver.py
index a0c983d..2dff7e4 100644
--- a/ngoschema/resolvers/uri_resolver.py
+++ b/ngoschema/resolvers/uri_resolver.py
@@ -150,6 +150,16 @@ class UriResolver(RefResolver):
             schema = resolve_uri(uri)
         return UriResolver(uri, schema, store=dict(UriResolver._doc_store))
 
+    def resolve_remote(self, uri):
+        """ retrieve a remote document to the store, an HTTP error status being an error and not a document """
+        scheme = urlparse(uri).scheme
+        if scheme in self.handlers or scheme not in ('http', 'https'):
+            return RefResolver.resolve_remote(self, uri)
+        doc = _fetch(uri).json()
+        if self.cache_remote:
+            self.store[uri] = doc
+        return doc
+
     def _expand(self, uri, schema, doc_scope):
         """ expand a schema to add properties of all definitions it extends
         if a URI is given, it will be used to identify the schema in a cache store.
-- 
2.43.0


From b0612fec9458a6a4ecac3081390515e43e2af344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:03 +0000
Subject: [PATCH 27/57] fix: forget the types built as part of a construction
 that fails

A type completed while another one was under construction may refer to it
through a proxy. When the construction failed, it stayed registered with a
proxy to nothing, and its parts were reused by the next attempt.
---
 ngoschema/managers/type_builder.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ngoschema/managers/type_builder.py b/ngoschema/managers/type_builder.py
index bdc8fe0..fde9aa6 100644
--- a/ngoschema/managers/type_builder.py
+++ b/ngoschema/managers/type_builder.py
@@ -44,6 +44,7 @@ class TypeBuilder(GenericClassRegistry):
     _registry = {}
     _type_registry = {}
     _on_construction = {}
+    _completed = []
     _lock = threading.RLock()
 
     def register_type(self, type):
@@ -93,6 +94,8 @@ class TypeBuilder(GenericClassRegistry):
             return _False()
         attrs = attrs or {}
         self._on_construction[id] = (schema, bases, attrs)
+        # types completed as part of this construction, which may refer to it through a proxy
+        mark = len(self._completed)
         try:
             if '$ref' in schema:
                 schema = schema.copy()
@@ -106,9 +109,18 @@ class TypeBuilder(GenericClassRegistry):
                 cls = ArrayProtocol.build(id, schema, bases, attrs)
             else:
                 cls = TypeProtocol.build(id, schema, bases, attrs)()
+        except BaseException:
+            for i in self._completed[mark:]:
+                self._registry.pop(i, None)
+            del self._completed[mark:]
+            raise
         finally:
             self._on_construction.pop(id, None)
         self._registry[id] = cls
+        if not self._on_construction:
+            del self._completed[:]
+        elif not attrs:
+            self._completed.append(id)
         NamespaceManager.register_ns(id)
         return cls
 
-- 
2.43.0


From 4e6328120f74c174e557ab54492031df20fe3280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:58 +0000
Subject: [PATCH 28/57] fix: follow the indices of a canonical name in an
 object

An index is an integer, for which hasattr raises: o['a[0].b'] could be neither
read nor assigned, and the properties depending on it were never refreshed.
---
 ngoschema/protocols/object_protocol.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index e78b858..eaae2b2 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -392,7 +392,7 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
             cur = self
             try:
                 for p in parts:
-                    cur = cur[p] if not hasattr(cur, p) else getattr(cur, p)
+                    cur = cur[p] if isinstance(p, int) or not hasattr(cur, p) else getattr(cur, p)
                     if cur is None:
                         return
                 return cur
@@ -422,7 +422,7 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
             cur = self
             try:
                 for p in parts[:-1]:
-                    cur = cur[p] if not hasattr(cur, p) else getattr(cur, p)
+                    cur = cur[p] if isinstance(p, int) or not hasattr(cur, p) else getattr(cur, p)
                     if cur is None:
                         return
                 cur[parts[-1]] = value
-- 
2.43.0


From 5f64c99f745e03b349d7ce144a553dbbd845c47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:58 +0000
Subject: [PATCH 29/57] fix: find the variables of a template which uses an
 index between brackets

---
 ngoschema/utils/jinja2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/utils/jinja2.py b/ngoschema/utils/jinja2.py
index eddeea3..2af7de2 100644
--- a/ngoschema/utils/jinja2.py
+++ b/ngoschema/utils/jinja2.py
@@ -88,7 +88,7 @@ def get_jinja2_variables(source, remove_this=True):
                 var.pop(-1)
                 var.append(f'[{t.value}]')
             else:
-                var.append(t.value)
+                var.append(str(t.value))
     return vars if not remove_this \
         else [v.replace('this.', '').replace('self.', '') for v in vars]
 
-- 
2.43.0


From ddf6075dc37002ff4a57330600c41960e41d6fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:18 +0000
Subject: [PATCH 30/57] fix: read the item of an array of an object by its
 canonical name

Without dot, 'a[0]' was not understood as a canonical name, and a property
depending on it was never refreshed.
---
 ngoschema/protocols/object_protocol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index eaae2b2..188f592 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -386,7 +386,7 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
     def __getitem__(self, key):
         if not key:
             return self._parent
-        if '.' in key:
+        if '.' in key or ('[' in key and key not in self._data):
             parts = split_cname(key)
             # case: canonical name such as a[0][1].b[0].c
             cur = self
-- 
2.43.0


From 4b5195f48bc1239f75b5b359c8d9cc7713519cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:18 +0000
Subject: [PATCH 31/57] fix: find the inputs of an expression through 'this'
 and the items of arrays

The inputs of an expression stopped at the first index and ignored what is
read through 'this', so that the property was not refreshed when they changed.
---
 ngoschema/types/strings.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ngoschema/types/strings.py b/ngoschema/types/strings.py
index 0807a58..03860c0 100644
--- a/ngoschema/types/strings.py
+++ b/ngoschema/types/strings.py
@@ -41,7 +41,7 @@ class String(Primitive):
 
 
 class Expr(String):
-    _expr_regex = re.compile(r"[a-zA-Z_]+[\w\.]*")
+    _expr_regex = re.compile(r"[a-zA-Z_][\w\.]*(?:\[\d+\][\w\.]*)*")
 
     @staticmethod
     def _check(self, value, **opts):
@@ -59,7 +59,9 @@ class Expr(String):
 
     @staticmethod
     def _inputs(self, value, **opts):
-        return set(Expr._expr_regex.findall(str(value))).difference(builtins.__dict__)
+        names = Expr._expr_regex.findall(str(value))
+        names = [n[len('this.'):] if n.startswith('this.') else n for n in names]
+        return set(names).difference(builtins.__dict__)
 
 
 class Pattern(String):
-- 
2.43.0


From aa2b811e1559240522c1b4fa514eca6e98d7bec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:07 +0000
Subject: [PATCH 32/57] fix: do not compute an item from a property that cannot
 be read

The failure of a property used by a template or an expression was ignored, and
the value computed from nothing ('None') was given and kept.
---
 ngoschema/protocols/collection_protocol.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ngoschema/protocols/collection_protocol.py b/ngoschema/protocols/collection_protocol.py
index ad97514..216bd89 100644
--- a/ngoschema/protocols/collection_protocol.py
+++ b/ngoschema/protocols/collection_protocol.py
@@ -3,6 +3,7 @@ from __future__ import absolute_import
 from __future__ import unicode_literals
 
 import logging
+import re
 from abc import abstractmethod
 from operator import neg
 
@@ -125,6 +126,10 @@ class CollectionProtocol(Collection):
                 try:
                     ret[k] = self._items_input(k)
                 except Exception as er:
+                    root = re.split(r'[.\[]', k)[0]
+                    if self.is_object() and root in self._data:
+                        # without the value of the property it uses, the item would be computed from nothing
+                        self[root]
                     self._logger.error(er, exc_info=True)
         return ret
 
-- 
2.43.0


From de64a90749c5df0dfc7746a6e5bb6056d79ae32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:48 +0000
Subject: [PATCH 33/57] fix: refresh the properties computed from an array of
 objects when its items change

---
 ngoschema/protocols/collection_protocol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/protocols/collection_protocol.py b/ngoschema/protocols/collection_protocol.py
index 216bd89..f1ac54f 100644
--- a/ngoschema/protocols/collection_protocol.py
+++ b/ngoschema/protocols/collection_protocol.py
@@ -109,7 +109,7 @@ class CollectionProtocol(Collection):
     def _items_input(self, item):
         v = self[item]
         # an array is modified in place: keep its items to be able to see that it changed
-        return list(v) if isinstance(v, CollectionProtocol) and v.is_array_primitive() else v
+        return list(v) if isinstance(v, CollectionProtocol) and v.is_array() else v
 
     def _items_inputs_evaluate(self, item):
         ret = {}
-- 
2.43.0


From e5096edc801c4c78ebc5556b3ae4015abb8c3bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:27 +0000
Subject: [PATCH 34/57] fix: validate the array, not the inserted item, as a
 list of items

---
 ngoschema/protocols/array_protocol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/protocols/array_protocol.py b/ngoschema/protocols/array_protocol.py
index 4a4a82e..bec6882 100644
--- a/ngoschema/protocols/array_protocol.py
+++ b/ngoschema/protocols/array_protocol.py
@@ -118,7 +118,7 @@ class ArrayProtocol(CollectionProtocol, Array, MutableSequence):
                 self._set_dataValidated(item, self._items_evaluate(item))
             elif isinstance(value, TypeProtocol):
                 value.set_context(self._context)
-            self._validate(self, value, items=False)
+            self._validate(self, self, items=False)
         except BaseException:
             self._items_restore_all(states)
             raise
-- 
2.43.0


From 6d58c72775ff7eb2941bbf1267ddb1c192794b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:27 +0000
Subject: [PATCH 35/57] fix: evaluate the items of a slice of an array

---
 ngoschema/protocols/array_protocol.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ngoschema/protocols/array_protocol.py b/ngoschema/protocols/array_protocol.py
index bec6882..af8eb4a 100644
--- a/ngoschema/protocols/array_protocol.py
+++ b/ngoschema/protocols/array_protocol.py
@@ -72,6 +72,11 @@ class ArrayProtocol(CollectionProtocol, Array, MutableSequence):
     def __len__(self):
         return len(self._data)
 
+    def __getitem__(self, item):
+        if isinstance(item, slice):
+            return [CollectionProtocol.__getitem__(self, i) for i in range(*item.indices(len(self)))]
+        return CollectionProtocol.__getitem__(self, item)
+
     def __setitem__(self, item, value):
         if not isinstance(item, slice):
             return CollectionProtocol.__setitem__(self, item, value)
-- 
2.43.0


From d45541deb9c812a2314ef76c2d1e8961f8e12442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:27 +0000
Subject: [PATCH 36/57] fix: extend, reverse or clear an array completely or
 not at all

---
 ngoschema/protocols/array_protocol.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/ngoschema/protocols/array_protocol.py b/ngoschema/protocols/array_protocol.py
index af8eb4a..ee543d7 100644
--- a/ngoschema/protocols/array_protocol.py
+++ b/ngoschema/protocols/array_protocol.py
@@ -128,6 +128,24 @@ class ArrayProtocol(CollectionProtocol, Array, MutableSequence):
             self._items_restore_all(states)
             raise
 
+    def _items_change_all(self, method, *args):
+        # a change of several items is made completely or not at all
+        states = self._items_state(slice(None))
+        try:
+            method(self, *args)
+        except BaseException:
+            self._items_restore_all(states)
+            raise
+
+    def extend(self, values):
+        self._items_change_all(MutableSequence.extend, values)
+
+    def reverse(self):
+        self._items_change_all(MutableSequence.reverse)
+
+    def clear(self):
+        del self[:]
+
     def _str_list(self):
         if self._str is None:
             hidden = max(0, len(self) - settings.PPRINT_MAX_EL)
-- 
2.43.0


From c08a143a3b492df3c2ea27ff1bbb26de7363c208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:11 +0000
Subject: [PATCH 37/57] fix: show the current items in the text of objects and
 arrays

---
 ngoschema/protocols/array_protocol.py  | 13 ++++++------
 ngoschema/protocols/object_protocol.py | 29 ++++++++++++--------------
 2 files changed, 19 insertions(+), 23 deletions(-)

diff --git a/ngoschema/protocols/array_protocol.py b/ngoschema/protocols/array_protocol.py
index ee543d7..45c3fa4 100644
--- a/ngoschema/protocols/array_protocol.py
+++ b/ngoschema/protocols/array_protocol.py
@@ -147,13 +147,12 @@ class ArrayProtocol(CollectionProtocol, Array, MutableSequence):
         del self[:]
 
     def _str_list(self):
-        if self._str is None:
-            hidden = max(0, len(self) - settings.PPRINT_MAX_EL)
-            a = [shorten(self._dataValidated[i] or self._data[i], str_fun=repr)
-                 for i, t in enumerate(self._items_types(self, self._data))
-                 if i < settings.PPRINT_MAX_EL] + (['+%i...' % hidden] if hidden else [])
-            self._str = '[%s]' % (', '.join(a))
-        return self._str
+        # not kept: the nested objects and arrays can change
+        hidden = max(0, len(self) - settings.PPRINT_MAX_EL)
+        a = [shorten(self._dataValidated[i] or self._data[i], str_fun=repr)
+             for i, t in enumerate(self._items_types(self, self._data))
+             if i < settings.PPRINT_MAX_EL] + (['+%i...' % hidden] if hidden else [])
+        return '[%s]' % (', '.join(a))
 
     def __repr__(self):
         return '%s(%s)' % (self.qualname(), ArrayProtocol._str_list(self))
diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index 188f592..0d25d78 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -477,25 +477,22 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
             ret.move_to_end('$schema', False)
         return ret
 
+    # texts are not kept: the nested objects and arrays can change
     def __repr__(self):
-        if self._repr is None:
-            m = settings.PPRINT_MAX_EL
-            ks = list(self._print_order(self, self._data, no_defaults=True, no_readOnly=True))
-            hidden = max(0, len(ks) - m)
-            a = ['%s=%s' % (k, shorten(self._dataValidated[k] or self._data[k], str_fun=repr)) for k in ks[:m]]
-            a += ['+%i...' % hidden] if hidden else []
-            self._repr = '%s(%s)' % (self.qualname(), ', '.join(a))
-        return self._repr
+        m = settings.PPRINT_MAX_EL
+        ks = list(self._print_order(self, self._data, no_defaults=True, no_readOnly=True))
+        hidden = max(0, len(ks) - m)
+        a = ['%s=%s' % (k, shorten(self._dataValidated[k] or self._data[k], str_fun=repr)) for k in ks[:m]]
+        a += ['+%i...' % hidden] if hidden else []
+        return '%s(%s)' % (self.qualname(), ', '.join(a))
 
     def __str__(self):
-        if self._str is None:
-            m = settings.PPRINT_MAX_EL
-            ks = list(self._print_order(self, self._data, no_defaults=True, no_readOnly=False))
-            hidden = max(0, len(ks) - m)
-            a = ['%s: %s' % (k, shorten(self._dataValidated[k] or self._data[k], str_fun=repr)) for k in ks[:m]]
-            a += ['+%i...' % hidden] if hidden else []
-            self._str = '{%s}' % (', '.join(a))
-        return self._str
+        m = settings.PPRINT_MAX_EL
+        ks = list(self._print_order(self, self._data, no_defaults=True, no_readOnly=False))
+        hidden = max(0, len(ks) - m)
+        a = ['%s: %s' % (k, shorten(self._dataValidated[k] or self._data[k], str_fun=repr)) for k in ks[:m]]
+        a += ['+%i...' % hidden] if hidden else []
+        return '{%s}' % (', '.join(a))
 
     @staticmethod
     def _items_type(self, item):
-- 
2.43.0


From 5666b932ca1692e58e37f9e043c500432fb35693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:26 +0000
Subject: [PATCH 38/57] fix: create sessions while another thread configures
 their factory

---
 ngoschema/session.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/session.py b/ngoschema/session.py
index c8acdc5..5f0d000 100644
--- a/ngoschema/session.py
+++ b/ngoschema/session.py
@@ -236,7 +236,7 @@ class session_maker(object):
             session = Session()  # invokes sessionmaker.__call__()
 
         """
-        for k, v in self.kw.items():
+        for k, v in list(self.kw.items()):
             if k == "info" and "info" in local_kw:
                 d = v.copy()
                 d.update(local_kw["info"])
-- 
2.43.0


From 2f7cf5791de4a18724d6f415b6d59c2de469872c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:30 +0000
Subject: [PATCH 39/57] fix: let the queries on an iterator share its elements

---
 ngoschema/query.py | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/ngoschema/query.py b/ngoschema/query.py
index 76c78d3..7130523 100644
--- a/ngoschema/query.py
+++ b/ngoschema/query.py
@@ -11,6 +11,8 @@ from __future__ import unicode_literals
 import itertools
 import operator
 import re
+import threading
+from collections.abc import Iterator
 
 from python_jsonschema_objects.literals import LiteralValue
 
@@ -222,6 +224,27 @@ class _Selection(object):
         return Query._filter_or_exclude(self._iterable, *self._attrs, **self._options)
 
 
+class _Replay(object):
+    """Elements of an iterator, kept when they are first needed to be iterated any number of times."""
+
+    def __init__(self, iterator):
+        self._iterator = iterator
+        self._elements = []
+        self._lock = threading.RLock()
+
+    def __iter__(self):
+        i = 0
+        while True:
+            with self._lock:
+                if i == len(self._elements):
+                    try:
+                        self._elements.append(next(self._iterator))
+                    except StopIteration:
+                        return
+            yield self._elements[i]
+            i += 1
+
+
 class Query(object):
 
     def __init__(self, iterable, distinct=False, order_by=False, reverse=False):
@@ -234,7 +257,8 @@ class Query(object):
         :param reverse: boolean to reverse order
         :type reverse: boolean
         """
-        self._iterable = iterable
+        # an iterator can only be consumed once, and is shared with the queries derived from this one
+        self._iterable = _Replay(iterable) if isinstance(iterable, Iterator) else iterable
         self._distinct = distinct
         self._order_by = order_by
         self._reverse = reverse
-- 
2.43.0


From acfccfb13636dd399a2a42ec564943dce8f74ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:01 +0000
Subject: [PATCH 40/57] fix: convert numbers with the decimal context of their
 type

---
 ngoschema/types/numerics.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ngoschema/types/numerics.py b/ngoschema/types/numerics.py
index d8cc5a6..f4fb6bd 100644
--- a/ngoschema/types/numerics.py
+++ b/ngoschema/types/numerics.py
@@ -45,6 +45,12 @@ class Number(Numeric):
             return value
         raise TypeError('%s is not of type "number".' % value)
 
+    @staticmethod
+    def _convert(self, value, **opts):
+        # calling the type and evaluating a property convert without going through _evaluate
+        with decimal.localcontext(self._dcmContext):
+            return Primitive._convert(self, value, **opts)
+
     @staticmethod
     def _evaluate(self, value, **opts):
         with decimal.localcontext(self._dcmContext):
-- 
2.43.0


From fad630d99807d6effbf4f4bcf14f1bac0acda788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:58 +0000
Subject: [PATCH 41/57] fix: validate numbers without raising flags in the
 decimal context of the caller

---
 ngoschema/types/numerics.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ngoschema/types/numerics.py b/ngoschema/types/numerics.py
index f4fb6bd..d442857 100644
--- a/ngoschema/types/numerics.py
+++ b/ngoschema/types/numerics.py
@@ -51,6 +51,14 @@ class Number(Numeric):
         with decimal.localcontext(self._dcmContext):
             return Primitive._convert(self, value, **opts)
 
+    @staticmethod
+    def _validate(self, value, **opts):
+        # the checks on the value neither depend on the context of the caller nor raise flags in it
+        prec = decimal.getcontext().prec
+        with decimal.localcontext(self._dcmContext) as ctx:
+            ctx.prec = max(prec, ctx.prec)
+            return Primitive._validate(self, value, **opts)
+
     @staticmethod
     def _evaluate(self, value, **opts):
         with decimal.localcontext(self._dcmContext):
-- 
2.43.0


From c9b306e395341e08e043bdcd4cb20da21e0140e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:47 +0000
Subject: [PATCH 42/57] fix: cast schema objects too, whose attributes are kept
 in their dictionary

---
 ngoschema/utils/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ngoschema/utils/utils.py b/ngoschema/utils/utils.py
index d9355bc..d327123 100644
--- a/ngoschema/utils/utils.py
+++ b/ngoschema/utils/utils.py
@@ -522,11 +522,12 @@ def casted_as(instance, cls):
     instance_cls = instance.__class__
     if cls not in instance_cls.__mro__:
         raise AttributeError("'%s' is not a parent of '%s'" % (cls, instance))
-    instance.__class__ = cls
+    # schema objects keep what is assigned to them in their dictionary
+    object.__setattr__(instance, '__class__', cls)
     try:
         yield instance
     finally:
-        instance.__class__ = instance_cls
+        object.__setattr__(instance, '__class__', instance_cls)
 
 
 def class_casted_as(cls, other):
-- 
2.43.0


From 9f618218d246b83712776f7271955d89bd465955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:40 +0000
Subject: [PATCH 43/57] fix: keep the result of a memoised property apart from
 the one of the class redefining it

---
 ngoschema/decorators.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/ngoschema/decorators.py b/ngoschema/decorators.py
index 2c477d2..0d1914d 100644
--- a/ngoschema/decorators.py
+++ b/ngoschema/decorators.py
@@ -325,8 +325,16 @@ class memoized_property(object):
     def __get__(self, obj, cls):
         if obj is None:
             return self
-        obj.__dict__[self.__name__] = result = self.fget(obj)
-        return result
+        if getattr(cls, self.__name__, None) is self:
+            # found there without coming here again
+            obj.__dict__[self.__name__] = result = self.fget(obj)
+            return result
+        # redefined by a subclass, whose result goes there
+        key = '_memoized_' + self.__name__
+        if self not in obj.__dict__.get(key, {}):
+            result = self.fget(obj)
+            obj.__dict__[key] = {**obj.__dict__.get(key, {}), self: result}
+        return obj.__dict__[key][self]
 
     def _reset(self, obj):
         memoized_property.reset(obj, self.__name__)
@@ -334,6 +342,7 @@ class memoized_property(object):
     @classmethod
     def reset(cls, obj, name):
         obj.__dict__.pop(name, None)
+        obj.__dict__.pop('_memoized_' + name, None)
 
 
 def memoized_method(*lru_args, **lru_kwargs):
-- 
2.43.0


From 85e62f35015a264c68824cf8bbb333a546092c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:40 +0000
Subject: [PATCH 44/57] fix: keep one cache of a memoised method by instance
 and class, used from its first call

---
 ngoschema/decorators.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/ngoschema/decorators.py b/ngoschema/decorators.py
index 0d1914d..b24f540 100644
--- a/ngoschema/decorators.py
+++ b/ngoschema/decorators.py
@@ -347,17 +347,21 @@ class memoized_property(object):
 
 def memoized_method(*lru_args, **lru_kwargs):
     def decorator(func):
+        key = '_memoized_' + func.__name__
+
         @functools.wraps(func)
         def wrapped_func(self, *args, **kwargs):
-            # We're storing the wrapped method inside the instance. If we had
+            # We're storing the wrapped method inside the instance, apart from those of the parent classes. If we had
             # a strong reference to self the instance would never die.
-            self_weak = weakref.ref(self)
-            @functools.wraps(func)
-            @functools.lru_cache(*lru_args, **lru_kwargs)
-            def cached_method(*args, **kwargs):
-                return func(self_weak(), *args, **kwargs)
-            # can t use setattr as it conflicts with __setattr__ of protocol base
-            object.__setattr__(self, func.__name__, cached_method)
-            return cached_method(*args, **kwargs)
+            self_weak, methods = self.__dict__.get(key, (None, None))
+            if self_weak is None or self_weak() is not self:    # not those of the instance this one is a copy of
+                self_weak, methods = self.__dict__[key] = weakref.ref(self), {}
+            if func not in methods:
+                @functools.wraps(func)
+                @functools.lru_cache(*lru_args, **lru_kwargs)
+                def cached_method(*args, **kwargs):
+                    return func(self_weak(), *args, **kwargs)
+                methods[func] = cached_method
+            return methods[func](*args, **kwargs)
         return wrapped_func
     return decorator
-- 
2.43.0


From c9a705e5198c776024a5610c443d7adee5e67d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:26 +0000
Subject: [PATCH 45/57] fix: name a memoised property after its attribute,
 whatever the name of its getter

---
 ngoschema/decorators.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ngoschema/decorators.py b/ngoschema/decorators.py
index b24f540..e855841 100644
--- a/ngoschema/decorators.py
+++ b/ngoschema/decorators.py
@@ -322,6 +322,11 @@ class memoized_property(object):
         self.__doc__ = doc or fget.__doc__
         self.__name__ = fget.__name__
 
+    def __set_name__(self, owner, name):
+        # the getter can be a lambda, or have another name
+        if getattr(owner, self.__name__, None) is not self:
+            self.__name__ = name
+
     def __get__(self, obj, cls):
         if obj is None:
             return self
-- 
2.43.0


From e04a35f5faa53d57dc731c3ade86ecd1caaa96c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:26 +0000
Subject: [PATCH 46/57] fix: keep the names an object uses apart from those of
 the class it extends

---
 ngoschema/protocols/object_protocol.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index 0d25d78..3d4c2a6 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -264,7 +264,8 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
     __properties_raw_trans = None
     @classmethod
     def _properties_raw_trans(cls, name):
-        if cls.__properties_raw_trans is None:
+        # the names of a class are not those of the class it extends
+        if '_ObjectProtocol__properties_raw_trans' not in cls.__dict__:
             cls.__properties_raw_trans = {}
         cached = cls.__properties_raw_trans.get(name)
         if cached:
-- 
2.43.0


From c2434477d4ff72689c9e6b845a2e71d732ccf51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:27 +0000
Subject: [PATCH 47/57] fix: give each object its own copy of a default value

---
 ngoschema/protocols/type_protocol.py | 3 ++-
 ngoschema/protocols/validator.py     | 4 ++--
 ngoschema/types/array.py             | 3 ++-
 ngoschema/types/collection.py        | 3 ++-
 4 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/ngoschema/protocols/type_protocol.py b/ngoschema/protocols/type_protocol.py
index cb6c1c9..7861fad 100644
--- a/ngoschema/protocols/type_protocol.py
+++ b/ngoschema/protocols/type_protocol.py
@@ -103,7 +103,8 @@ class TypeProtocol(Serializer):
 
     @classmethod
     def default(cls, value=None, evaluate=False, raw_literals=True, **opts):
-        return cls._deserialize(cls, value or cls._default, raw_literals=raw_literals, **opts)
+        # an object modifying its value must not modify the default of the others
+        return cls._deserialize(cls, value or copy.deepcopy(cls._default), raw_literals=raw_literals, **opts)
 
     @classmethod
     def is_primitive(cls):
diff --git a/ngoschema/protocols/validator.py b/ngoschema/protocols/validator.py
index d44d44a..cb90aa3 100644
--- a/ngoschema/protocols/validator.py
+++ b/ngoschema/protocols/validator.py
@@ -3,7 +3,7 @@ from __future__ import absolute_import
 from __future__ import unicode_literals
 
 from collections import OrderedDict
-from copy import copy
+from copy import deepcopy
 import logging
 
 from ..exceptions import InvalidValue, ValidationError, ConversionError
@@ -77,7 +77,7 @@ class Validator(Converter, Context):
         if value is None:
             if self._default is None:
                 return None
-            value = copy(self._default)
+            value = deepcopy(self._default)
         value = self._convert(self, value, validate=False, **opts) if convert else value
         if validate:
             # value is not modified
diff --git a/ngoschema/types/array.py b/ngoschema/types/array.py
index 6a9ab6e..5e29c77 100644
--- a/ngoschema/types/array.py
+++ b/ngoschema/types/array.py
@@ -2,6 +2,7 @@
 from __future__ import absolute_import
 from __future__ import unicode_literals
 
+import copy
 from collections import Mapping, Sequence, deque, OrderedDict
 
 from ..exceptions import ValidationError, ConversionError
@@ -158,7 +159,7 @@ class Array(Collection, ArraySerializer):
         return True
 
     def default(self, value=None, **opts):
-        value = value or self._default
+        value = value or copy.deepcopy(self._default)
         ret = [None] * len(value)
         for k, t in self._items_types(self, value):
             ret[k] = t.default(value[k], **opts) if t.has_default(value[k]) else None
diff --git a/ngoschema/types/collection.py b/ngoschema/types/collection.py
index 9b85556..b9084a7 100644
--- a/ngoschema/types/collection.py
+++ b/ngoschema/types/collection.py
@@ -2,6 +2,7 @@
 from __future__ import absolute_import
 from __future__ import unicode_literals
 
+import copy
 from collections import defaultdict
 from operator import neg
 
@@ -74,7 +75,7 @@ class Collection(Type, CollectionSerializer):
 
     @staticmethod
     def _deserialize(self, value, evaluate=True, items=False, **opts):
-        ret = self._deserializer._deserialize(self, value or self._default, items=items, evaluate=False, **opts)
+        ret = self._deserializer._deserialize(self, value or copy.deepcopy(self._default), items=items, evaluate=False, **opts)
         #ret = self._collType(ret)
         if items:
             for k, t in self._items_types(self, value):
-- 
2.43.0


From fce32d2aa5fb5e69074833291fe56a59c9130e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:43 +0000
Subject: [PATCH 48/57] fix: refuse to delete a required property as an item
 too

---
 ngoschema/protocols/object_protocol.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index 3d4c2a6..1eaca6e 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -440,14 +440,15 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
         self._data[key] = self._dataAdditional[key] = self._dataValidated[key] = v
 
     def __delitem__(self, key):
-        for trans, raw in self._propertiesTranslation.items():
-            if key in (trans, raw):
-                delattr(self, trans)
-                break
-        else:
-            del self._data[key]
-            del self._itemsInputs[key]
-            del self._dataValidated[key]
+        raw, trans = self._properties_raw_trans(key)
+        desc = self._propertiesDescriptor.get(raw)
+        if desc:
+            return desc.__delete__(self)
+        if key in self._required:
+            raise AttributeError('%s is a required argument.' % key)
+        del self._data[key]
+        del self._itemsInputs[key]
+        del self._dataValidated[key]
 
     @staticmethod
     def _serialize(self, value, schema=False, excludes=[], only=[], **opts):
-- 
2.43.0


From 960c3888a8f77b766f0fc15763565e32d94f74bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:32 +0000
Subject: [PATCH 49/57] fix: use the accessors a subclass defines for the
 properties of its parents

---
 ngoschema/protocols/object_protocol.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index 1eaca6e..4c3d61a 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -735,8 +735,8 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
         for pname, pfun in descriptor_funs.items():
             ptrans = clean_js_name(pname)
             for b in pbases:
-                if hasattr(b, ptrans) and isinstance(b, PropertyDescriptor):
-                    d = copy.copy(getattr(b.trans))
+                if isinstance(getattr(b, ptrans, None), PropertyDescriptor):
+                    d = copy.copy(getattr(b, ptrans))
                     for k, v in pfun.items():
                         if v is not None:
                             setattr(d, f'f{k}', v)
-- 
2.43.0


From 70085c3e61036e7fa6efdbdad65f520b417a8a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:51 +0000
Subject: [PATCH 50/57] fix: do not add what one value uses to the dependencies
 of its class

---
 ngoschema/protocols/object_protocol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index 4c3d61a..942f6b1 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -195,7 +195,7 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
     @staticmethod
     def _call_order(self, value, items=True, **opts):
         # make a local copy which is transfered to the sorter
-        dependencies = defaultdict(set, **self._dependencies)
+        dependencies = defaultdict(set, {k: set(s) for k, s in self._dependencies.items()})
         if items:
             for k, t in self._items_types(self, value):
                 if self._is_included(k, value, **opts):
-- 
2.43.0


From 1aabcb69d859c501468c6731e669dc8c1e80b79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:16 +0000
Subject: [PATCH 51/57] fix: find the variables of a template wherever they are
 used in it

---
 ngoschema/utils/jinja2.py | 58 +++++++++++++++++++++++++--------------
 1 file changed, 37 insertions(+), 21 deletions(-)

diff --git a/ngoschema/utils/jinja2.py b/ngoschema/utils/jinja2.py
index 2af7de2..90062eb 100644
--- a/ngoschema/utils/jinja2.py
+++ b/ngoschema/utils/jinja2.py
@@ -16,7 +16,8 @@ from builtins import str
 
 import inflection
 import jinja2
-import jinja2.parser
+import jinja2.meta
+import jinja2.nodes
 from slugify import slugify as _slugify
 
 from .utils import GenericClassRegistry
@@ -68,29 +69,44 @@ class TemplatedString(object):
 
 @functools.lru_cache(512)
 def get_jinja2_variables(source, remove_this=True):
-    """return the list of variables in jinja2 source (no filters)"""
+    """return the list of variables in jinja2 source (no filters), wherever they are used: printed, tested, looped over..."""
     env = default_jinja2_env()
-    parser = jinja2.parser.Parser(env, source)
+    try:
+        ast = env.parse(str(source))
+    except jinja2.TemplateSyntaxError:
+        # reported when the template is rendered
+        return []
+    undeclared = jinja2.meta.find_undeclared_variables(ast)
     vars = []
-    var = []
-    processing = False
-    for t in parser.stream:
-        if t.type == 'variable_begin':
-            processing = True
-            continue
-        if processing:
-            if t.type == 'variable_end' or t.value == '|':
-                processing=False
-                vars.append(''.join(var))
-                var = []
-                continue
-            if t.type == 'integer' and var[-1] == '.':
-                var.pop(-1)
-                var.append(f'[{t.value}]')
-            else:
-                var.append(str(t.value))
+
+    def path(node):
+        """ return the canonical name read by a node, or None if it reads more than names, attributes and constant indices """
+        if isinstance(node, jinja2.nodes.Name):
+            return node.name if node.name in undeclared else None
+        attr = None
+        if isinstance(node, jinja2.nodes.Getattr):
+            attr = f'.{node.attr}'
+        elif isinstance(node, jinja2.nodes.Getitem) and isinstance(node.arg, jinja2.nodes.Const):
+            attr = f'[{node.arg.value}]' if isinstance(node.arg.value, int) else f'.{node.arg.value}'
+        parent = path(node.node) if attr else None
+        return parent and parent + attr
+
+    def visit(node):
+        p = path(node)
+        if p:
+            vars.append(p)
+            return
+        for child in node.iter_child_nodes():
+            if isinstance(node, jinja2.nodes.Call) and child is node.node:
+                # the called function is not a variable, but the object of a called method is
+                if isinstance(child, jinja2.nodes.Name):
+                    continue
+                child = getattr(child, 'node', child)
+            visit(child)
+
+    visit(ast)
     return vars if not remove_this \
-        else [v.replace('this.', '').replace('self.', '') for v in vars]
+        else [re.sub(r'^(this|self)\.', '', v) for v in vars]
 
 # ADDITIONAL FILTERS FROM INFLECTION
 
-- 
2.43.0


From 8b4cb34891b1dae680886fcf71700a89c5b58d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:16 +0000
Subject: [PATCH 52/57] fix: refresh the properties computed from an object or
 array when what it holds changes

---
 ngoschema/protocols/collection_protocol.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/ngoschema/protocols/collection_protocol.py b/ngoschema/protocols/collection_protocol.py
index f1ac54f..00d6ef2 100644
--- a/ngoschema/protocols/collection_protocol.py
+++ b/ngoschema/protocols/collection_protocol.py
@@ -12,6 +12,7 @@ from ..decorators import assert_arg
 from ..managers.type_builder import DefaultValidator
 from ..managers.namespace_manager import default_ns_manager, clean_js_name
 from .. import settings
+from ..utils import is_mapping
 from ..types.strings import Pattern, Expr
 from ..types.collection import Collection
 from ..types.uri import PathFile, PathFileExists
@@ -108,8 +109,22 @@ class CollectionProtocol(Collection):
 
     def _items_input(self, item):
         v = self[item]
-        # an array is modified in place: keep its items to be able to see that it changed
-        return list(v) if isinstance(v, CollectionProtocol) and v.is_array() else v
+        # a collection is modified in place: keep what it holds to be able to see that it changed
+        return self._items_snapshot(list(v)) if isinstance(v, CollectionProtocol) and v.is_array() else self._items_snapshot(v)
+
+    @staticmethod
+    def _items_snapshot(value, parents=()):
+        # what a value holds, down to primitives
+        if isinstance(value, CollectionProtocol):
+            if id(value) in parents:
+                return value
+            parents += (id(value), )
+            value = value._data
+        if is_mapping(value):
+            return {k: CollectionProtocol._items_snapshot(v, parents) for k, v in value.items()}
+        if isinstance(value, list):
+            return [CollectionProtocol._items_snapshot(v, parents) for v in value]
+        return value
 
     def _items_inputs_evaluate(self, item):
         ret = {}
-- 
2.43.0


From c43afaf893206dcc08f3e542e97a1e79a4fb1bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:16 +0000
Subject: [PATCH 53/57] fix: keep the context of an object inserted in a lazy
 array its own

---
 ngoschema/protocols/array_protocol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/protocols/array_protocol.py b/ngoschema/protocols/array_protocol.py
index 45c3fa4..a1ea169 100644
--- a/ngoschema/protocols/array_protocol.py
+++ b/ngoschema/protocols/array_protocol.py
@@ -122,7 +122,7 @@ class ArrayProtocol(CollectionProtocol, Array, MutableSequence):
                 self._itemsInputs[item] = self._items_inputs_evaluate(item)
                 self._set_dataValidated(item, self._items_evaluate(item))
             elif isinstance(value, TypeProtocol):
-                value.set_context(self._context)
+                value.set_context(value._create_context(value, context=self._context))
             self._validate(self, self, items=False)
         except BaseException:
             self._items_restore_all(states)
-- 
2.43.0


From 4ae12261d86e80e218dd7a4e7d33196dac67abdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:16 +0000
Subject: [PATCH 54/57] fix: let a deleted property be assigned again

---
 ngoschema/protocols/object_protocol.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index 942f6b1..0b71e0a 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -95,6 +95,11 @@ class PropertyDescriptor:
             key = self.pname
             if key in obj._readOnly:
                 raise AttributeError("'%s' is read only" % key)
+            storages = obj._data, obj._dataValidated, obj._itemsInputs
+            deleted = key not in obj._data
+            if deleted:
+                for storage, empty in zip(storages, (None, None, {})):
+                    storage[key] = empty
             state = obj._items_state(key)
             try:
                 obj._set_data(key, value)
@@ -106,6 +111,9 @@ class PropertyDescriptor:
                         self.fset(obj, obj._dataValidated[key])
             except BaseException:
                 obj._items_restore(key, state)
+                if deleted:
+                    for storage in storages:
+                        del storage[key]
                 raise
         except Exception as er:
             obj._logger.error(er, exc_info=True)
-- 
2.43.0


From 22041a2c846e75bd8acabb9ee9ca6e5ef76dbd91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:32 +0000
Subject: [PATCH 55/57] fix: refresh what is computed from items which use the
 object that holds them

---
 ngoschema/protocols/collection_protocol.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/ngoschema/protocols/collection_protocol.py b/ngoschema/protocols/collection_protocol.py
index 00d6ef2..a0ef034 100644
--- a/ngoschema/protocols/collection_protocol.py
+++ b/ngoschema/protocols/collection_protocol.py
@@ -113,17 +113,23 @@ class CollectionProtocol(Collection):
         return self._items_snapshot(list(v)) if isinstance(v, CollectionProtocol) and v.is_array() else self._items_snapshot(v)
 
     @staticmethod
-    def _items_snapshot(value, parents=()):
-        # what a value holds, down to primitives
+    def _items_snapshot(value, seen=None):
+        # what a value holds, and what holds it as it can be used too, down to primitives
+        seen = {} if seen is None else seen
         if isinstance(value, CollectionProtocol):
-            if id(value) in parents:
-                return value
-            parents += (id(value), )
+            if id(value) in seen:
+                return seen[id(value)]
+            seen[id(value)] = len(seen)
+            if value.is_object():
+                # the values of getters only follow the others
+                getters = [k for k, d in value._propertiesDescriptor.items() if d.fget]
+                data = {k: v for k, v in value._data.items() if k not in getters}
+                return CollectionProtocol._items_snapshot([data, value._parent], seen)
             value = value._data
         if is_mapping(value):
-            return {k: CollectionProtocol._items_snapshot(v, parents) for k, v in value.items()}
+            return {k: CollectionProtocol._items_snapshot(v, seen) for k, v in value.items()}
         if isinstance(value, list):
-            return [CollectionProtocol._items_snapshot(v, parents) for v in value]
+            return [CollectionProtocol._items_snapshot(v, seen) for v in value]
         return value
 
     def _items_inputs_evaluate(self, item):
-- 
2.43.0


From 3968fa6156a3ba685280ab4463f911bfc7901393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:54 +0000
Subject: [PATCH 56/57] fix: leave the read-only properties of an object out of
 its own text only

---
 ngoschema/types/object.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/types/object.py b/ngoschema/types/object.py
index 0b233c7..ea958c2 100644
--- a/ngoschema/types/object.py
+++ b/ngoschema/types/object.py
@@ -89,7 +89,7 @@ class ObjectSerializer(CollectionSerializer, ObjectDeserializer):
         no_defaults = opts.get('no_defaults', self._noDefaults)
         no_readOnly = opts.get('no_readOnly', self._noReadOnly)
         if no_readOnly:
-            excludes += list(self._readOnly)
+            excludes = list(excludes) + list(self._readOnly)
         for k in all_ordered:
             if k in self._required:
                 yield k
-- 
2.43.0


From 30b2c3ee1348102268d73e0fdb0a2dbe73e68a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:20:46 +0000
Subject: [PATCH 57/57] fix: a resolver with a document of its own resolves
 registered uris regardless of case, as the others do

---
 ngoschema/resolvers/uri_resolver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/resolvers/uri_resolver.py b/ngoschema/resolvers/uri_resolver.py
index 2dff7e4..3723965 100644
--- a/ngoschema/resolvers/uri_resolver.py
+++ b/ngoschema/resolvers/uri_resolver.py
@@ -148,7 +148,7 @@ class UriResolver(RefResolver):
         # not in doc store, create a resolver with a copy
         if schema is None:
             schema = resolve_uri(uri)
-        return UriResolver(uri, schema, store=dict(UriResolver._doc_store))
+        return UriResolver(uri, schema, store=UriDict(UriResolver._doc_store))
 
     def resolve_remote(self, uri):
         """ retrieve a remote document to the store, an HTTP error status being an error and not a document """
-- 
2.43.0

