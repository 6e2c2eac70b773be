From 4832f6330290f7f2eb8a585c5e4d5a09e4f41d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:49 +0000
Subject: [PATCH 01/15] fix: allow a set value handler to drain pending
 handlers

A handler that charges steps may handle the remaining pending SETVALUE
responses by itself to get refunds. The outer loop then popped from an empty
list and the transaction failed with a system error.
---
 pyee/pyexec/ipc/proxy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyee/pyexec/ipc/proxy.py b/pyee/pyexec/ipc/proxy.py
index 0fd7c7e..4de7b54 100644
--- a/pyee/pyexec/ipc/proxy.py
+++ b/pyee/pyexec/ipc/proxy.py
@@ -455,6 +455,9 @@ class ServiceManagerProxy:
 
     def __handle_set_values(self, cnt: int):
         for i in range(0, cnt):
+            if not self.__set_handlers:
+                # a handler may have consumed the remaining ones
+                break
             handler, size = self.__set_handlers.pop(0)
             msg, data = self.__client.receive()
             if msg != Message.SETVALUE:
-- 
2.43.0


From c180ba2885c1b5f9f8c0234c34d7f804530ea8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:49 +0000
Subject: [PATCH 02/15] fix: do not retry a put when a pending delete runs out
 of step

The fallback of ContextDatabase.put() is for its own charge. It also caught
the exception from the handler of an earlier delete, so the cost of the
delete was dropped (and the value could be written twice).
---
 pyee/pyexec/database/db.py               | 3 +++
 pyee/pyexec/iconscore/icon_score_step.py | 8 ++++++++
 2 files changed, 11 insertions(+)

diff --git a/pyee/pyexec/database/db.py b/pyee/pyexec/database/db.py
index e62b267..2ba107e 100644
--- a/pyee/pyexec/database/db.py
+++ b/pyee/pyexec/database/db.py
@@ -167,6 +167,9 @@ class ContextDatabase(object):
                 self._charge_step_set(context, value)
                 self._db.put(key, value, self.__refund_handler)
             except OutOfStepException as e:
+                if e.step_type is not StepType.SET:
+                    # raised by a pending handler, not by this charge
+                    raise
                 # restore to the previous state
                 context.step_counter.add_step(e.step_used - e.step_limit)
                 # do fallback handling
diff --git a/pyee/pyexec/iconscore/icon_score_step.py b/pyee/pyexec/iconscore/icon_score_step.py
index b1e9e4c..489827c 100644
--- a/pyee/pyexec/iconscore/icon_score_step.py
+++ b/pyee/pyexec/iconscore/icon_score_step.py
@@ -93,6 +93,14 @@ class OutOfStepException(IconServiceBaseException):
         """
         return self.__step_used
 
+    @property
+    def step_type(self) -> StepType:
+        """
+        Returns the step type that was being charged
+        :return: step type
+        """
+        return self.__step_type
+
     @property
     def requested_step(self) -> int:
         """
-- 
2.43.0


From a44837bfb07684075fb7b3fe071e26e404d3b09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:49 +0000
Subject: [PATCH 03/15] fix: handle pending set values before sending a request

If a pending handler ran out of step after the request had been sent, the
response of the request stayed in the connection and was taken as the response
of the next request.
---
 pyee/pyexec/ipc/proxy.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyee/pyexec/ipc/proxy.py b/pyee/pyexec/ipc/proxy.py
index 4de7b54..11146a3 100644
--- a/pyee/pyexec/ipc/proxy.py
+++ b/pyee/pyexec/ipc/proxy.py
@@ -469,8 +469,10 @@ class ServiceManagerProxy:
                     handler(False, 0, 0)
 
     def send_and_receive(self, msg: int, data: bytes) -> Tuple[int, Any]:
-        self.__client.send(msg, data)
+        # handlers may raise an exception, so consume pending responses before
+        # sending the request, otherwise its response would be left unread
         self.handle_set_values()
+        self.__client.send(msg, data)
         return self.__client.receive()
 
     def get_value(self, key: bytes) -> Optional[bytes]:
-- 
2.43.0


From 90b572107341f6ad52bccb609fc1c0475f2eefae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:49 +0000
Subject: [PATCH 04/15] fix: report out of step raised by the last pending set
 values

Pending SETVALUE responses are handled after the method returned. If one of
them ran out of step, the exception escaped from the invocation: it was not
reported as OUT_OF_STEP, the rest of the responses stayed unread and the
context of the invocation was never popped.
---
 pyee/pyexec/service_engine.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/pyee/pyexec/service_engine.py b/pyee/pyexec/service_engine.py
index ef5356e..86a77a0 100644
--- a/pyee/pyexec/service_engine.py
+++ b/pyee/pyexec/service_engine.py
@@ -63,8 +63,10 @@ class ServiceEngine(ContextContainer):
         Logger.debug(f'[invoke] {context.method}, {context.params}', TAG)
 
         cls._push_context(context)
-        status, step_used, ret = cls._handle_invoke(context)
-        cls._pop_context()
+        try:
+            status, step_used, ret = cls._handle_invoke(context)
+        finally:
+            cls._pop_context()
 
         Logger.debug(f'*** RESULT: {status}, {step_used}, {ret}', TAG)
         return status, step_used, ret
@@ -94,11 +96,19 @@ class ServiceEngine(ContextContainer):
             status = Status.SUCCESS
         except BaseException as e:
             status, ret = cls._get_status_from_exception(e)
-        finally:
-            cls._proxy.handle_set_values()
-            if context.fee_sharing_proportion > 0:
-                cls._proxy.set_fee_proportion(context.fee_sharing_proportion)
-            step_used = context.step_counter.step_used
+
+        # handle all pending set values, they may run out of step
+        while True:
+            try:
+                if not cls._proxy.handle_set_values():
+                    break
+            except IconServiceBaseException as e:
+                if status == Status.SUCCESS:
+                    status, ret = cls._get_status_from_exception(e)
+
+        if context.fee_sharing_proportion > 0:
+            cls._proxy.set_fee_proportion(context.fee_sharing_proportion)
+        step_used = context.step_counter.step_used
 
         return status, step_used, ret
 
-- 
2.43.0


From 17ee5a0cd3324fa337372def96bce2cad2d9c11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:49 +0000
Subject: [PATCH 05/15] fix: consider EXTENDED_ARG when validating the level of
 an import

With more than 256 constants, the index of the import level is extended. The
validator used only its low byte, so it could take another constant as the
level and accept any absolute import as a relative one.
---
 pyee/pyexec/iconscore/score_package_validator.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyee/pyexec/iconscore/score_package_validator.py b/pyee/pyexec/iconscore/score_package_validator.py
index ed66daf..f82fa20 100644
--- a/pyee/pyexec/iconscore/score_package_validator.py
+++ b/pyee/pyexec/iconscore/score_package_validator.py
@@ -23,6 +23,7 @@ CODE_NAMES_ATTR = 'co_names'
 
 BLACKLIST_RESERVED_KEYWORD = ['exec', 'eval', 'compile', '__import__']
 
+EXTENDED_ARG = 144
 LOAD_CONST = 100
 IMPORT_STAR = 84
 IMPORT_NAME = 108
@@ -177,6 +178,13 @@ class ScorePackageValidator(object):
         from_list_index = byte_code_list[current_index - 1]
         level_index = byte_code_list[current_index - 3]
 
+        # the level may be located beyond the first 256 constants
+        ext_index, shift = current_index - 6, 8
+        while ext_index >= 0 and byte_code_list[ext_index] == EXTENDED_ARG:
+            level_index |= byte_code_list[ext_index + 1] << shift
+            ext_index -= 2
+            shift += 8
+
         import_name = co_names[import_name_index]
         from_list = co_consts[from_list_index]
         level = co_consts[level_index]
-- 
2.43.0


From d8df2a476dcfff60804a6e8c1bb0cb4451e06832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:45 +0000
Subject: [PATCH 06/15] fix: recognize the star import of Python 3.12 in
 package validation

---
 pyee/pyexec/iconscore/score_package_validator.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyee/pyexec/iconscore/score_package_validator.py b/pyee/pyexec/iconscore/score_package_validator.py
index f82fa20..3d00da4 100644
--- a/pyee/pyexec/iconscore/score_package_validator.py
+++ b/pyee/pyexec/iconscore/score_package_validator.py
@@ -29,6 +29,10 @@ IMPORT_STAR = 84
 IMPORT_NAME = 108
 IMPORT_FROM = 109
 
+# IMPORT_STAR is replaced by CALL_INTRINSIC_1(2) since Python 3.12
+CALL_INTRINSIC_1 = 173
+INTRINSIC_IMPORT_STAR = 2
+
 BASE_PACKAGE = 'iconservice'
 
 # == OPCODE ==
@@ -200,7 +204,9 @@ class ScorePackageValidator(object):
             return
         else:
             next_op_code_key = byte_code_list[current_index + 2]
-            if IMPORT_STAR == next_op_code_key:
+            if IMPORT_STAR == next_op_code_key or \
+                    (CALL_INTRINSIC_1 == next_op_code_key and
+                     INTRINSIC_IMPORT_STAR == byte_code_list[current_index + 3]):
                 # import_star
                 if from_list[0] != '*':
                     raise IllegalFormatException(f'Invalid star import: {import_name}')
-- 
2.43.0


From e1d6ec949dd533a409c6e96533269af4b12c635e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:45 +0000
Subject: [PATCH 07/15] fix: do not execute a package while validating it

---
 pyee/pyexec/iconscore/score_package_validator.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyee/pyexec/iconscore/score_package_validator.py b/pyee/pyexec/iconscore/score_package_validator.py
index 3d00da4..9b2da10 100644
--- a/pyee/pyexec/iconscore/score_package_validator.py
+++ b/pyee/pyexec/iconscore/score_package_validator.py
@@ -12,6 +12,7 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
+import importlib.machinery
 import importlib.util
 import os
 import sys
@@ -92,8 +93,10 @@ class ScorePackageValidator(object):
         for imp in cls.CUSTOM_IMPORT_LIST:
             full_name = f'{package}.{imp}'
 
-            spec = importlib.util.find_spec(full_name)
-            code = spec.loader.get_code(full_name)
+            # do not use find_spec(), which executes the parent packages
+            path = f'{os.path.join(code_path, *imp.split("."))}.py'
+            loader = importlib.machinery.SourceFileLoader(full_name, path)
+            code = loader.get_code(full_name)
 
             cls._validate_import_from_code(code)
             cls._validate_import_from_const(code.co_consts)
-- 
2.43.0


From b57b6993619862139af79e867718845b62f8ed9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:08 +0000
Subject: [PATCH 08/15] fix: reject packages with compiled modules, which are
 not validated

---
 pyee/pyexec/iconscore/score_package_validator.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pyee/pyexec/iconscore/score_package_validator.py b/pyee/pyexec/iconscore/score_package_validator.py
index 9b2da10..aa5856d 100644
--- a/pyee/pyexec/iconscore/score_package_validator.py
+++ b/pyee/pyexec/iconscore/score_package_validator.py
@@ -36,6 +36,9 @@ INTRINSIC_IMPORT_STAR = 2
 
 BASE_PACKAGE = 'iconservice'
 
+# modules which can be imported but cannot be inspected
+COMPILED_SUFFIXES = tuple(importlib.machinery.BYTECODE_SUFFIXES + importlib.machinery.EXTENSION_SUFFIXES)
+
 # == OPCODE ==
 # 20 LOAD_CONST(key1) value1
 # 22 LOAD_CONST(key2) value2
@@ -109,6 +112,8 @@ class ScorePackageValidator(object):
             for file in filenames:
                 file_name, extension = os.path.splitext(file)
                 if extension != '.py':
+                    if file.endswith(COMPILED_SUFFIXES) and not cls._is_bytecode_cache(dir_path, file):
+                        raise IllegalFormatException(f'Compiled module found: {file}')
                     continue
                 sub_pkg_path = os.path.relpath(dir_path, pkg_root_path)
                 if sub_pkg_path == '.':
@@ -120,6 +125,11 @@ class ScorePackageValidator(object):
                 tmp_list.append(pkg_path)
         return tmp_list
 
+    @staticmethod
+    def _is_bytecode_cache(dir_path: str, file: str) -> bool:
+        """Bytecode like `__pycache__/main.cpython-37.pyc`, which can be loaded only via its source"""
+        return os.path.basename(dir_path) == '__pycache__' and file.endswith('.pyc') and file.count('.') > 1
+
     @classmethod
     def _validate_blacklist_keyword_from_names(cls, co_names: tuple):
         for co_name in co_names:
-- 
2.43.0


From f72962c3ed0e7b651f1751aca02c3b1e671f3de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:45 +0000
Subject: [PATCH 09/15] fix: refuse a fee-sharing proportion that is not an
 integer

---
 pyee/pyexec/iconscore/icon_score_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyee/pyexec/iconscore/icon_score_base.py b/pyee/pyexec/iconscore/icon_score_base.py
index 72cb6e8..27e7982 100644
--- a/pyee/pyexec/iconscore/icon_score_base.py
+++ b/pyee/pyexec/iconscore/icon_score_base.py
@@ -628,7 +628,7 @@ class IconScoreBase(IconScoreObject, ContextGetter,
     def set_fee_sharing_proportion(self, proportion: int):
         if self._context.type == IconScoreContextType.QUERY:
             raise InvalidRequestException("Cannot set fee sharing proportion in read-only context")
-        if proportion < 0 or proportion > 100:
-            raise InvalidRequestException("Invalid proportion: should be between 0 and 100")
+        if not isinstance(proportion, int) or proportion < 0 or proportion > 100:
+            raise InvalidRequestException("Invalid proportion: should be an integer between 0 and 100")
 
         self._context.fee_sharing_proportion = proportion
-- 
2.43.0


From 378212913d3998be937ba0e7516c3c2b5f8262d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:06 +0000
Subject: [PATCH 10/15] fix: report an exception that cannot describe itself as
 a system error

---
 pyee/pyexec/service_engine.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyee/pyexec/service_engine.py b/pyee/pyexec/service_engine.py
index 86a77a0..f5e9f73 100644
--- a/pyee/pyexec/service_engine.py
+++ b/pyee/pyexec/service_engine.py
@@ -144,6 +144,14 @@ class ServiceEngine(ContextContainer):
 
     @classmethod
     def _get_status_from_exception(cls, e: BaseException):
+        try:
+            return cls._describe_exception(e)
+        except BaseException:
+            # an exception defined by SCORE may fail to describe itself
+            return ExceptionCode.SYSTEM_ERROR, type(e).__name__
+
+    @classmethod
+    def _describe_exception(cls, e: BaseException):
         if isinstance(e, IconServiceBaseException):
             if isinstance(e, IconScoreException):
                 tag = 'ScoreException'
-- 
2.43.0


From 3b7c02e031193e0afcfadcd542d92454e9bafc87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:43 +0000
Subject: [PATCH 11/15] fix: a read-only call has to be read-only while the
 SCORE is constructed

---
 pyee/pyexec/iconscore/icon_score_base.py   |  5 +++--
 pyee/pyexec/iconscore/icon_score_mapper.py | 16 +++++++++++++---
 pyee/pyexec/service_engine.py              |  8 +++++---
 3 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/pyee/pyexec/iconscore/icon_score_base.py b/pyee/pyexec/iconscore/icon_score_base.py
index 27e7982..7f91dba 100644
--- a/pyee/pyexec/iconscore/icon_score_base.py
+++ b/pyee/pyexec/iconscore/icon_score_base.py
@@ -473,8 +473,9 @@ class IconScoreBase(IconScoreObject, ContextGetter,
         func: FunctionMetadata = elements.get(func_name)
         return isinstance(func, FunctionMetadata) and func.is_payable
 
-    def __is_func_readonly(self, func_name: str) -> bool:
-        elements = self.__get_score_element_metadata()
+    @classmethod
+    def __is_func_readonly(cls, func_name: str) -> bool:
+        elements = cls.__get_score_element_metadata()
         func: FunctionMetadata = elements.get(func_name)
         return isinstance(func, FunctionMetadata) and func.is_readonly
 
diff --git a/pyee/pyexec/iconscore/icon_score_mapper.py b/pyee/pyexec/iconscore/icon_score_mapper.py
index 290f47d..51cd16d 100644
--- a/pyee/pyexec/iconscore/icon_score_mapper.py
+++ b/pyee/pyexec/iconscore/icon_score_mapper.py
@@ -110,11 +110,10 @@ class IconScoreMapper(object):
         else:
             return self._objects.get(key)
 
-    def get_icon_score(self, address: 'Address', code_path: str) -> Optional['IconScoreBase']:
+    def get_score_class(self, code_path: str) -> Optional[callable]:
         """
-        :param address:
         :param code_path:
-        :return: IconScoreBase object
+        :return: SCORE class in the code path
         """
         key = hashlib.sha3_256(code_path.encode()).digest()
         score_info: IconScoreInfo = self.get(key)
@@ -126,6 +125,17 @@ class IconScoreMapper(object):
             self.put_score_info(key, score_class, code_path)
         else:
             score_class = score_info.score_class
+        return score_class
+
+    def get_icon_score(self, address: 'Address', code_path: str) -> Optional['IconScoreBase']:
+        """
+        :param address:
+        :param code_path:
+        :return: IconScoreBase object
+        """
+        score_class = self.get_score_class(code_path)
+        if score_class is None:
+            return None
 
         score_db = self._create_icon_score_database(address)
         return score_class(score_db)
diff --git a/pyee/pyexec/service_engine.py b/pyee/pyexec/service_engine.py
index f5e9f73..dd7edb4 100644
--- a/pyee/pyexec/service_engine.py
+++ b/pyee/pyexec/service_engine.py
@@ -114,12 +114,14 @@ class ServiceEngine(ContextContainer):
 
     @classmethod
     def _internal_call(cls, context: IconScoreContext):
-        icon_score: 'IconScoreBase' = cls._get_icon_score(context.to, context.code)
-        if icon_score is None:
+        score_class = cls._score_mapper.get_score_class(context.code)
+        if score_class is None:
             raise ScoreNotFoundException(f'SCORE not found: {context.to}')
 
         func_name: str = context.method
-        context.set_func_type_by_icon_score(icon_score, func_name)
+        # a readonly method is readonly from the construction of the SCORE on
+        context.set_func_type_by_icon_score(score_class, func_name)
+        icon_score: 'IconScoreBase' = cls._get_icon_score(context.to, context.code)
 
         if isinstance(context.params, dict):
             arg_params = []
-- 
2.43.0


From 29e6c0fc543022cea0a77fec1de14f3226db8292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:13 +0000
Subject: [PATCH 12/15] fix: a struct used in two sibling fields is not
 circular

---
 pyee/pyexec/iconscore/typing/element.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyee/pyexec/iconscore/typing/element.py b/pyee/pyexec/iconscore/typing/element.py
index 5aff633..bb38737 100644
--- a/pyee/pyexec/iconscore/typing/element.py
+++ b/pyee/pyexec/iconscore/typing/element.py
@@ -464,6 +464,7 @@ def check_if_struct_is_valid(type_hint: type, structs: Set[Any] = None):
         elif origin is Union:
             normalize_union_type_hint(type_hint)
         elif is_struct(origin):
-            check_if_struct_is_valid(type_hint, structs)
+            # only the enclosing structs count, not those of sibling fields
+            check_if_struct_is_valid(type_hint, set(structs))
         else:
             raise IllegalFormatException(f"Invalid type hint: {type_hint}")
-- 
2.43.0


From ed41c5ef905ed2ad30ab015ba83dbac45680d947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:35 +0000
Subject: [PATCH 13/15] fix: an unknown method with named params should not run
 code of the SCORE

---
 pyee/pyexec/service_engine.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyee/pyexec/service_engine.py b/pyee/pyexec/service_engine.py
index dd7edb4..05464fb 100644
--- a/pyee/pyexec/service_engine.py
+++ b/pyee/pyexec/service_engine.py
@@ -139,7 +139,8 @@ class ServiceEngine(ContextContainer):
     @staticmethod
     def _convert_score_params_by_annotations(icon_score: 'IconScoreBase', func_name: str, kw_params: dict) -> dict:
         tmp_params = kw_params
-        score_func = getattr(icon_score, func_name)
+        # look it up in the class, no attribute hook of the SCORE should run here
+        score_func = getattr(type(icon_score), func_name)
         annotation_params = TypeConverter.make_annotations_from_method(score_func)
         TypeConverter.convert_data_params(annotation_params, tmp_params)
         return tmp_params
-- 
2.43.0


From 379e7a0b6e639468d32489fdd5d1174716243bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:32 +0000
Subject: [PATCH 14/15] fix: a result or interface that fails to be described
 or encoded still gets its one answer

---
 pyee/pyexec/ipc/proxy.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/pyee/pyexec/ipc/proxy.py b/pyee/pyexec/ipc/proxy.py
index 11146a3..0dc6c65 100644
--- a/pyee/pyexec/ipc/proxy.py
+++ b/pyee/pyexec/ipc/proxy.py
@@ -388,13 +388,15 @@ class ServiceManagerProxy:
                 self.encode(step_used),
                 self.encode_any(result)
             ])
-        except Exception as e:
-            e_str = traceback.format_exc()
+        except BaseException as e:
+            # the result may be an object of SCORE, which can raise anything
+            e_str = self.__to_printable(traceback.format_exc)
             self.debug(f"Exception in INVOKE:\n{e_str}", TAG)
+            e_str = self.__to_printable(lambda: str(e))
             self.__client.send(Message.RESULT, [
                 Status.SYSTEM_FAILURE,
                 self.encode(limit),
-                self.encode_any(f'ExceptionInInvoke({str(e)})')
+                self.encode_any(f'ExceptionInInvoke({e_str})')
             ])
         finally:
             self.__readonly = self.__readonly_stack.pop(-1)
@@ -410,11 +412,18 @@ class ServiceManagerProxy:
                     self.__client.send(Message.GETAPI, [Status.SYSTEM_FAILURE, None])
             else:
                 self.__client.send(Message.GETAPI, [status, None])
-        except Exception:
-            e_str = traceback.format_exc()
+        except BaseException:
+            e_str = self.__to_printable(traceback.format_exc)
             self.debug(f"Exception in GETAPI:\n{e_str}", TAG)
             self.__client.send(Message.GETAPI, [Status.SYSTEM_FAILURE, None])
 
+    @staticmethod
+    def __to_printable(describe: Callable[[], str]) -> str:
+        try:
+            return str.encode(describe(), 'utf-8', 'backslashreplace').decode('utf-8')
+        except BaseException:
+            return 'unknown'
+
     def loop(self):
         while True:
             msg, data = self.__client.receive()
-- 
2.43.0


From 438d95895ac04c88af07c0e41b9c58a31aa1f832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:28 +0000
Subject: [PATCH 15/15] fix: a method is published by the name it can be called
 by

---
 pyee/pyexec/iconscore/typing/definition.py | 11 ++++++++++-
 pyee/pyexec/iconscore/typing/element.py    | 19 +++++++++++--------
 2 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/pyee/pyexec/iconscore/typing/definition.py b/pyee/pyexec/iconscore/typing/definition.py
index 93ad8fc..8cd5773 100644
--- a/pyee/pyexec/iconscore/typing/definition.py
+++ b/pyee/pyexec/iconscore/typing/definition.py
@@ -48,16 +48,25 @@ def get_score_api(elements: Iterable[ScoreElementMetadata]) -> List:
     """
 
     api = []
+    eventlogs = set()
 
     for element in elements:
         if isinstance(element, FunctionMetadata):
             func: FunctionMetadata = element
-            if func.flag == ScoreFlag.PAYABLE:
+            if func.flag == ScoreFlag.PAYABLE and func.name != STR_FALLBACK:
+                continue
+            if func.is_fallback and func.name != STR_FALLBACK:
+                # another name of the fallback, which cannot be called
                 continue
 
             item = _get_function(func.name, func.flag, func.signature)
         elif isinstance(element, EventLogMetadata):
             eventlog: EventLogMetadata = element
+            if eventlog.element in eventlogs:
+                # another name of the same event
+                continue
+            eventlogs.add(eventlog.element)
+
             item = _get_eventlog(eventlog.name, eventlog.signature, eventlog.indexed_args_count)
         else:
             raise IllegalFormatException(f"Invalid score element: {element} {type(element)}")
diff --git a/pyee/pyexec/iconscore/typing/element.py b/pyee/pyexec/iconscore/typing/element.py
index bb38737..64f62dc 100644
--- a/pyee/pyexec/iconscore/typing/element.py
+++ b/pyee/pyexec/iconscore/typing/element.py
@@ -233,9 +233,10 @@ def verify_score_flag(flag: ScoreFlag, allow_payable_only: bool = True):
 
 
 class ScoreElementMetadata(object):
-    def __init__(self, element: callable):
+    def __init__(self, element: callable, name: str = None):
         self._signature: Signature = normalize_signature(element)
         self._element = element
+        self._name = element.__name__ if name is None else name
 
     @property
     def element(self) -> callable:
@@ -243,7 +244,7 @@ class ScoreElementMetadata(object):
 
     @property
     def name(self) -> str:
-        return self._element.__name__
+        return self._name
 
     @property
     def flag(self) -> ScoreFlag:
@@ -258,8 +259,8 @@ class FunctionMetadata(ScoreElementMetadata):
     """Represents metadata of an exposed function in a SCORE
 
     """
-    def __init__(self, func: callable):
-        super().__init__(func)
+    def __init__(self, func: callable, name: str = None):
+        super().__init__(func, name)
         self._verify()
 
     @property
@@ -384,25 +385,27 @@ def create_score_element_metadata(cls: type) -> Mapping:
                 continue
             if utils.is_any_flag_on(flag, ScoreFlag.ALL):
                 raise IllegalFormatException(f"Invalid decorators in {name}")
-            elements[name] = FunctionMetadata(func)
+            elements[name] = FunctionMetadata(func, name)
             continue
 
         # Collect the only functions with the following flags
         if utils.is_any_flag_on(flag, ScoreFlag.FUNC | ScoreFlag.EVENTLOG):
             verify_score_flag(flag)
-            elements[name] = __get_score_element_metadata(func)
+            elements[name] = __get_score_element_metadata(func, name)
 
     elements.freeze()
     return elements
 
 
-def __get_score_element_metadata(element: callable) -> Union[FunctionMetadata, EventLogMetadata]:
+def __get_score_element_metadata(element: callable, name: str) -> Union[FunctionMetadata, EventLogMetadata]:
     flags = get_score_flag(element)
 
     if flags & ScoreFlag.EVENTLOG:
+        # an event is recorded by the name in its declaration
         return EventLogMetadata(element)
     else:
-        return FunctionMetadata(element)
+        # a function is called by the name of the attribute
+        return FunctionMetadata(element, name)
 
 
 def get_score_flag(obj: callable, default: ScoreFlag = ScoreFlag.NONE) -> ScoreFlag:
-- 
2.43.0

