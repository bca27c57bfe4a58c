From 1d393dea22855b4280a780c852c7712e40d58314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:57 +0000
Subject: [PATCH 01/38] fix: keep calling the remaining cleanups of a scope
 after one raises a skip or an interruption

---
 slash/core/cleanup_manager.py | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/slash/core/cleanup_manager.py b/slash/core/cleanup_manager.py
index ce29f71..30a8b45 100644
--- a/slash/core/cleanup_manager.py
+++ b/slash/core/cleanup_manager.py
@@ -6,7 +6,7 @@ from sentinels import Sentinel
 from .. import hooks
 from ..ctx import context
 from ..exception_handling import handling_exceptions
-from ..exceptions import CannotAddCleanup, IncorrectScope, SlashInternalError
+from ..exceptions import CannotAddCleanup, IncorrectScope, SlashInternalError, INTERRUPTION_EXCEPTIONS
 
 _logger = logbook.Logger(__name__)
 
@@ -147,20 +147,31 @@ class CleanupManager(object):
                 hooks.before_test_cleanups()  # pylint: disable=no-member
 
         stack = scope.cleanups # pylint: disable=no-member
+        unswallowed = None
         while stack:
             cleanup = stack.pop()
             if in_interruption and not cleanup.critical:
                 continue
             if (in_failure or in_interruption) and cleanup.success_only:
                 continue
-            with handling_exceptions(swallow=True):
-                _logger.trace("Calling cleanup: {0}", cleanup)
-                previous_scope = self._current_scope
-                self._current_scope = scope
-                try:
-                    cleanup()
-                finally:
-                    self._current_scope = previous_scope
+            try:
+                with handling_exceptions(swallow=True):
+                    _logger.trace("Calling cleanup: {0}", cleanup)
+                    previous_scope = self._current_scope
+                    self._current_scope = scope
+                    try:
+                        cleanup()
+                    finally:
+                        self._current_scope = previous_scope
+            except BaseException as e:  # pylint: disable=broad-except
+                # never swallowed (e.g. skips and interruptions), but must not lose the remaining cleanups
+                if isinstance(e, INTERRUPTION_EXCEPTIONS):
+                    in_interruption = True
+                    unswallowed = e
+                elif unswallowed is None:
+                    unswallowed = e
+        if unswallowed is not None:
+            raise unswallowed
 
 
 
-- 
2.43.0


From 5a7cc5f450dda8efe6f4068a91a4826193921f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:27 +0000
Subject: [PATCH 02/38] fix: drop the test of a parallel worker reported dead,
 so that its late result is not filed twice

---
 slash/parallel/server.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/slash/parallel/server.py b/slash/parallel/server.py
index a2586b3..b0561ee 100644
--- a/slash/parallel/server.py
+++ b/slash/parallel/server.py
@@ -96,6 +96,7 @@ class Server(object):
     def report_client_failure(self, client_id):
         self.connected_clients.remove(client_id)
         test_index = self.executing_tests.get(client_id, None)
+        self.executing_tests[client_id] = None
         if test_index is not None:
             _logger.error("Worker {} interrupted while executing test {}", client_id,
                           self.tests[test_index].__slash__.address, extra={'capture': False})
-- 
2.43.0


From b646a8d399058e016ee203767c185adb53b0690e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:53 +0000
Subject: [PATCH 03/38] fix: tagging a class does not change the tags of its
 base classes

---
 slash/core/tagging.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/slash/core/tagging.py b/slash/core/tagging.py
index e2972c2..d28f1a7 100644
--- a/slash/core/tagging.py
+++ b/slash/core/tagging.py
@@ -25,6 +25,10 @@ def tag_test(test, tag_name, tag_value):
     if tags is NO_TAGS:
         tags = Tags()
         setattr(test, _TAGS_NAME, tags)
+    elif isinstance(test, type) and _TAGS_NAME not in vars(test):
+        # inherited from a base class, which must not be affected
+        tags = tags.copy()
+        setattr(test, _TAGS_NAME, tags)
     if tags.get(tag_name, NOTHING) not in (tag_value, NOTHING):
         raise TaggingConflict("Tag {} is already set on {}".format(tag_name, test))
     tags[tag_name] = tag_value
-- 
2.43.0


From b2f16f0339a772ce6e405f8e37a70db26d9a7cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:17 +0000
Subject: [PATCH 04/38] fix: a test may begin after closing the previous module
 raised

---
 slash/core/scope_manager.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/slash/core/scope_manager.py b/slash/core/scope_manager.py
index 7f820ee..1ac0b00 100644
--- a/slash/core/scope_manager.py
+++ b/slash/core/scope_manager.py
@@ -27,12 +27,13 @@ class ScopeManager(object):
         if not test_module:
             raise SlashInternalError("{!r} has no module name".format(test))
 
-        if self._last_module is None:
+        if not self._scopes:
             self._push_scope('session')
 
 
-        if self._last_module != test_module:
-            if self._last_module is not None:
+        # closing the previous module may have raised before, leaving only the session open
+        if self._last_module != test_module or self.current_scope == 'session':
+            if self.current_scope != 'session':
                 _logger.trace('Module scope has changed. Popping previous module scope')
                 self._pop_scope('module')
             assert self.current_scope != 'module'
-- 
2.43.0


From bd8476d563079cbf030f0d22af085451d0131080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:37 +0000
Subject: [PATCH 05/38] fix: record warnings that carry no message or one that
 is not a string

---
 slash/warnings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slash/warnings.py b/slash/warnings.py
index 7a9d67e..6dcbfa0 100644
--- a/slash/warnings.py
+++ b/slash/warnings.py
@@ -112,7 +112,7 @@ class RecordedWarning(object):
     @classmethod
     def from_native_warning(cls, message, category, filename, lineno):
         if isinstance(message, Warning):
-            message = message.args[0]
+            message = str(message)
 
         return cls({
             'message': message,
-- 
2.43.0


From 7bcafd63070f8949cfc67b411ea2e34ee74a5f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:37 +0000
Subject: [PATCH 06/38] fix: an ignored_warnings block that ends by an
 exception ends its rule too

---
 slash/warnings.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/slash/warnings.py b/slash/warnings.py
index 6dcbfa0..8660768 100644
--- a/slash/warnings.py
+++ b/slash/warnings.py
@@ -211,13 +211,15 @@ def ignore_warnings(category=None, message=None, filename=None, lineno=None):
 @contextmanager
 def ignored_warnings(**kwargs):
     iw = ignore_warnings(**kwargs)
-    with handling_exceptions():
-        yield
     try:
-        _ignored_warnings.remove(iw)
-    except ValueError:
-        # In case clear_warnings was called inside this context, ValueError will be raised
-        pass
+        with handling_exceptions():
+            yield
+    finally:
+        try:
+            _ignored_warnings.remove(iw)
+        except ValueError:
+            # In case clear_warnings was called inside this context, ValueError will be raised
+            pass
 
 
 def clear_ignored_warnings():
-- 
2.43.0


From 7be4abffc4717f6a7763ede30c18a88ba290c50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:19 +0000
Subject: [PATCH 07/38] fix: accept a list of swallow_types in
 handling_exceptions

---
 slash/exception_handling.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/slash/exception_handling.py b/slash/exception_handling.py
index f949eee..28b3f0c 100644
--- a/slash/exception_handling.py
+++ b/slash/exception_handling.py
@@ -92,9 +92,10 @@ def handling_exceptions(fake_traceback=True, **kwargs):
         fake_tbs = tuple()
     swallow = kwargs.pop("swallow", False)
     swallow_types = kwargs.pop('swallow_types', ())
+    assert isinstance(swallow_types, (list, tuple)), 'swallow_types must be either a list or a tuple'
+    swallow_types = tuple(swallow_types)
     if swallow:
         swallow_types = swallow_types + (Exception, )
-    assert isinstance(swallow_types, (list, tuple)), 'swallow_types must be either a list or a tuple'
     passthrough_types = kwargs.pop('passthrough_types', ()) + tuple(_ignored_state.ignored_exception_types)
     return _HandlingException(fake_tbs, swallow_types, passthrough_types, kwargs)
 
-- 
2.43.0


From 56b815c41078a4afa58711fce1fa01ffde71e8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:19 +0000
Subject: [PATCH 08/38] fix: handling_exceptions never swallows SystemExit

---
 slash/exception_handling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slash/exception_handling.py b/slash/exception_handling.py
index 28b3f0c..01bc4e1 100644
--- a/slash/exception_handling.py
+++ b/slash/exception_handling.py
@@ -131,7 +131,7 @@ class _HandlingException(object):
         handle_exception(exc_info, **self._kwargs)
         self._handled.exception = exc_info[1]
         skip_types = () if slash_context.session is None else slash_context.session.get_skip_exception_types()
-        if isinstance(exc_value, skip_types) or isinstance(exc_value, exceptions.INTERRUPTION_EXCEPTIONS):
+        if isinstance(exc_value, skip_types) or isinstance(exc_value, exceptions.INTERRUPTION_EXCEPTIONS + (SystemExit,)):
             return None
         if self._swallow_types and isinstance(exc_value, self._swallow_types):
             _logger.trace('Swallowing {!r}', exc_value)
-- 
2.43.0


From 02df841c6406c5d06440b9a7f082bbac25325eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:19 +0000
Subject: [PATCH 09/38] fix: marking an exception class does not mark its base
 classes

---
 slash/utils/exception_mark.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slash/utils/exception_mark.py b/slash/utils/exception_mark.py
index 1d54ac3..d3da686 100644
--- a/slash/utils/exception_mark.py
+++ b/slash/utils/exception_mark.py
@@ -22,7 +22,7 @@ _EXCEPTION_MARKS_NAME = '__slash_exc_marks__'
 
 def _ensure_exception_marks(e):
     returned = getattr(e, _EXCEPTION_MARKS_NAME, None)
-    if returned is not None and not isinstance(e, type) and returned is getattr(type(e), _EXCEPTION_MARKS_NAME, None):
+    if returned is not None and _EXCEPTION_MARKS_NAME not in vars(e):
         returned = copy.deepcopy(returned)
         safe_set_attribute(e, _EXCEPTION_MARKS_NAME, returned)
     if returned is None:
-- 
2.43.0


From 84230e433aa011ab08a97069d03d06a15a3ef09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:34 +0000
Subject: [PATCH 10/38] fix: take suite files in nested directories once

---
 slash/utils/suite_files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slash/utils/suite_files.py b/slash/utils/suite_files.py
index 774ed95..6c6f9a5 100644
--- a/slash/utils/suite_files.py
+++ b/slash/utils/suite_files.py
@@ -34,7 +34,7 @@ def iter_suite_file_paths(suite_files):
 def _extract_suite_files(suite_files):
     for entity in suite_files:
         if Path(entity).is_dir():
-            yield from _extract_suite_files(Path(entity).rglob("*"))
+            yield from _extract_suite_files(Path(entity).iterdir())
         else:
             yield entity
 
-- 
2.43.0


From 0b24fe10cf21b9ec4e152175623114b91396c031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:34 +0000
Subject: [PATCH 11/38] fix: honour repeat on a suite file line that names
 another suite file

---
 slash/utils/suite_files.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/slash/utils/suite_files.py b/slash/utils/suite_files.py
index 6c6f9a5..b0e8ddf 100644
--- a/slash/utils/suite_files.py
+++ b/slash/utils/suite_files.py
@@ -23,8 +23,9 @@ def iter_suite_file_paths(suite_files):
                     path = os.path.relpath(os.path.join(dirname, path))
 
                 if not path.endswith('.py') and '.py:' not in path and not os.path.isdir(path):
-                    for p, other_filter in iter_suite_file_paths([path]):
-                        yield p, _and_matchers(suite_entry.matcher, other_filter)
+                    for _ in range(suite_entry.repeat):
+                        for p, other_filter in iter_suite_file_paths([path]):
+                            yield p, _and_matchers(suite_entry.matcher, other_filter)
                     continue
 
                 for _ in range(suite_entry.repeat):
-- 
2.43.0


From d8d85c0211d4ccf61f8a2996e897433a4d1c73ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:53 +0000
Subject: [PATCH 12/38] fix: several slash.exclude rules over the same
 parameter names all apply, and names may be a list

---
 slash/core/exclusions.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/slash/core/exclusions.py b/slash/core/exclusions.py
index d64db83..e89f872 100644
--- a/slash/core/exclusions.py
+++ b/slash/core/exclusions.py
@@ -36,8 +36,7 @@ def is_excluded(test):
     for entity_func, exclusions in dict(list(fixture_exclusions.items()) + list(test_exclusions.items())).items():
         if not exclusions:
             continue
-        exclusions = dict(exclusions)
-        for parameter_names, value_sets in exclusions.items():
+        for parameter_names, value_sets in exclusions:
             params = []
             values = []
             for parameter_name in parameter_names:
-- 
2.43.0


From 3ff706abf3fe4530184f9a602d009eec5f378a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:53 +0000
Subject: [PATCH 13/38] fix: slash.exclude rules on fixtures apply when the
 fixture is needed indirectly or is an autouse fixture

---
 slash/core/exclusions.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/slash/core/exclusions.py b/slash/core/exclusions.py
index e89f872..ef20931 100644
--- a/slash/core/exclusions.py
+++ b/slash/core/exclusions.py
@@ -24,10 +24,23 @@ def exclude(names, values):
     return markers.exclude_marker((names, values))
 
 
+def _get_all_needed_fixtures(test):
+    store = context.session.fixture_store
+    pending = list(test.get_required_fixture_objects())
+    pending.extend(store.iter_autouse_fixtures_in_namespace(test.get_fixture_namespace()))
+    returned = set()
+    while pending:
+        fixture = pending.pop()
+        if fixture not in returned:
+            returned.add(fixture)
+            pending.extend(store.get_required_fixture_objects(fixture.fixture_func, namespace=fixture.namespace))
+    return returned
+
+
 def is_excluded(test):
     test_func = test.get_test_function()
     if not nofixtures.is_marked(test_func):
-        fixture_funcs = {fixture.fixture_func for fixture in test.get_required_fixture_objects()}
+        fixture_funcs = {fixture.fixture_func for fixture in _get_all_needed_fixtures(test)}
         fixture_exclusions = {fixture_func: markers.exclude_marker.get_value(fixture_func, default=None)
                               for fixture_func in fixture_funcs}
     else:
-- 
2.43.0


From 90a163d5c5c4b0d65a137f120529383ee53c1935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:53 +0000
Subject: [PATCH 14/38] fix: a class gets the requirements of all of its bases

---
 slash/core/requirements.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/slash/core/requirements.py b/slash/core/requirements.py
index d1a41a0..9c7b575 100644
--- a/slash/core/requirements.py
+++ b/slash/core/requirements.py
@@ -41,7 +41,12 @@ def _get_requirements_list(thing, create=True):
 
 
 def get_requirements(test):
-    return list(_get_requirements_list(test, create=False))
+    returned = list(_get_requirements_list(test, create=False))
+    for base in getattr(test, '__mro__', ()):
+        for req in _get_requirements_list(base, create=False):
+            if req not in returned:
+                returned.append(req)
+    return returned
 
 
 class Requirement(object):
-- 
2.43.0


From cf7a696c23634796ccb3f3b67f1b5a8ded538abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:53 +0000
Subject: [PATCH 15/38] fix: requirements of fixtures needed through
 use_fixtures, before or after apply to the test

---
 slash/core/fixtures/fixture_store.py | 5 ++---
 slash/core/test.py                   | 7 +++++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/slash/core/fixtures/fixture_store.py b/slash/core/fixtures/fixture_store.py
index 3ced58b..5ed6f75 100644
--- a/slash/core/fixtures/fixture_store.py
+++ b/slash/core/fixtures/fixture_store.py
@@ -97,9 +97,8 @@ class FixtureStore(object):
         return returned
 
     def get_required_fixture_objects(self, test_func, namespace):
-        names = self.get_required_fixture_names(test_func)
-        assert isinstance(names, list)
-        return set(self.get_fixture_dict(names, namespace=namespace, get_values=False).values())
+        names = self.get_required_fixture_names(test_func) + list(getattr(test_func, '__extrafixtures__', ()))
+        return {fixture for _, fixture in self._get_fixtures_set(names, namespace=namespace)}
 
     def resolve_name(self, parameter_name, start_point, namespace=None):
 
diff --git a/slash/core/test.py b/slash/core/test.py
index d2bb14f..08f3fd3 100644
--- a/slash/core/test.py
+++ b/slash/core/test.py
@@ -92,8 +92,11 @@ class Test(RunnableTest):
         cls.__slash_skipped_reason__ = reason
 
     def get_required_fixture_objects(self):
-        method = self.get_test_function()
-        return self._fixture_store.get_required_fixture_objects(method, namespace=self._fixture_namespace)
+        returned = set()
+        for method in (self.before, self.get_test_function(), self.after):
+            if not nofixtures.is_marked(method):
+                returned.update(self._fixture_store.get_required_fixture_objects(method, namespace=self._fixture_namespace))
+        return returned
 
     def get_address_in_factory(self):
         returned = ''
-- 
2.43.0


From a4ac7c88d3e3de12f846987c77dfa5df72c25bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:53 +0000
Subject: [PATCH 16/38] fix: a fixture named like a part of an argument name is
 not passed as an argument

---
 slash/core/fixtures/fixture_store.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/slash/core/fixtures/fixture_store.py b/slash/core/fixtures/fixture_store.py
index 5ed6f75..f422d96 100644
--- a/slash/core/fixtures/fixture_store.py
+++ b/slash/core/fixtures/fixture_store.py
@@ -260,7 +260,8 @@ class FixtureStore(object):
         for required_name, fixture in fixtures_set:
             if get_values:
                 fixture = self.get_fixture_value(fixture, name=required_name)
-            if required_name in fixture_names or [element for element in fixture_names if required_name in element]:
+            if required_name in fixture_names or [element for element in fixture_names
+                                                  if isinstance(element, tuple) and required_name == element[0]]:
                 returned[required_name] = fixture
         return returned
 
-- 
2.43.0


From ae7278e3370fee5dba285e35691001edda0b2df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:56 +0000
Subject: [PATCH 17/38] Revert "fix: a fixture named like a part of an argument
 name is not passed as an argument"

This reverts commit a4ac7c88d3e3de12f846987c77dfa5df72c25bd2.
---
 slash/core/fixtures/fixture_store.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/slash/core/fixtures/fixture_store.py b/slash/core/fixtures/fixture_store.py
index f422d96..5ed6f75 100644
--- a/slash/core/fixtures/fixture_store.py
+++ b/slash/core/fixtures/fixture_store.py
@@ -260,8 +260,7 @@ class FixtureStore(object):
         for required_name, fixture in fixtures_set:
             if get_values:
                 fixture = self.get_fixture_value(fixture, name=required_name)
-            if required_name in fixture_names or [element for element in fixture_names
-                                                  if isinstance(element, tuple) and required_name == element[0]]:
+            if required_name in fixture_names or [element for element in fixture_names if required_name in element]:
                 returned[required_name] = fixture
         return returned
 
-- 
2.43.0


From cbd2444d3a5d44094bf11ecd50c5c2890a6a37d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:20 +0000
Subject: [PATCH 18/38] fix: look up the fixtures needed through use_fixtures
 where the tests collect their fixtures

---
 slash/core/fixtures/fixture_store.py |  5 +++--
 slash/core/function_test.py          |  2 +-
 slash/core/runnable_test.py          | 11 +++++++++++
 slash/core/test.py                   |  2 +-
 4 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/slash/core/fixtures/fixture_store.py b/slash/core/fixtures/fixture_store.py
index 5ed6f75..3ced58b 100644
--- a/slash/core/fixtures/fixture_store.py
+++ b/slash/core/fixtures/fixture_store.py
@@ -97,8 +97,9 @@ class FixtureStore(object):
         return returned
 
     def get_required_fixture_objects(self, test_func, namespace):
-        names = self.get_required_fixture_names(test_func) + list(getattr(test_func, '__extrafixtures__', ()))
-        return {fixture for _, fixture in self._get_fixtures_set(names, namespace=namespace)}
+        names = self.get_required_fixture_names(test_func)
+        assert isinstance(names, list)
+        return set(self.get_fixture_dict(names, namespace=namespace, get_values=False).values())
 
     def resolve_name(self, parameter_name, start_point, namespace=None):
 
diff --git a/slash/core/function_test.py b/slash/core/function_test.py
index 1748ef1..54e35d1 100644
--- a/slash/core/function_test.py
+++ b/slash/core/function_test.py
@@ -43,7 +43,7 @@ class FunctionTest(RunnableTest):
         return list(set(test_requirements + self._get_fixtures_requirements()))
 
     def get_required_fixture_objects(self):
-        return self._fixture_store.get_required_fixture_objects(self._func, namespace=self._fixture_namespace)
+        return self._get_fixture_objects_required_by(self._func)
 
 
 class FunctionTestFactory(RunnableTestFactory):
diff --git a/slash/core/runnable_test.py b/slash/core/runnable_test.py
index f8959f7..ae8f14a 100644
--- a/slash/core/runnable_test.py
+++ b/slash/core/runnable_test.py
@@ -67,6 +67,17 @@ class RunnableTest(object):
     def get_requirements(self):
         raise NotImplementedError() # pragma: no cover
 
+    def _get_fixture_objects_required_by(self, func):
+        store, namespace = self._fixture_store, self._fixture_namespace
+        returned = store.get_required_fixture_objects(func, namespace=namespace)
+        pending = [func] + [fixture.fixture_func for fixture in returned]
+        while pending:
+            names = getattr(pending.pop(), '__extrafixtures__', ())
+            used = set(store.get_fixture_dict(names, namespace=namespace, get_values=False).values()) - returned
+            returned.update(used)
+            pending.extend(fixture.fixture_func for fixture in used)
+        return returned
+
     def get_required_fixture_objects(self):
         raise NotImplementedError() # pragma: no cover
 
diff --git a/slash/core/test.py b/slash/core/test.py
index 08f3fd3..302821e 100644
--- a/slash/core/test.py
+++ b/slash/core/test.py
@@ -95,7 +95,7 @@ class Test(RunnableTest):
         returned = set()
         for method in (self.before, self.get_test_function(), self.after):
             if not nofixtures.is_marked(method):
-                returned.update(self._fixture_store.get_required_fixture_objects(method, namespace=self._fixture_namespace))
+                returned.update(self._get_fixture_objects_required_by(method))
         return returned
 
     def get_address_in_factory(self):
-- 
2.43.0


From 3b0e23a5333fda205c0e7cf4a7f26ecaa144329e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:24 +0000
Subject: [PATCH 19/38] fix: parameters of the same name in setup methods of a
 class and its base keep separate identities

---
 slash/core/variation_factory.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/slash/core/variation_factory.py b/slash/core/variation_factory.py
index 918bd6d..b7c8a20 100644
--- a/slash/core/variation_factory.py
+++ b/slash/core/variation_factory.py
@@ -95,6 +95,9 @@ class VariationFactory(object):
                     visited.add(obj.info.id)
                     stack.append(('{}.{}'.format(name, sub_name), obj))
             elif isinstance(fixture, Parametrization):
+                # e.g. setup methods of a class and of its base with parameters of the same name
+                while self._param_name_bindings.get(name, fixture).info.id != fixture.info.id:
+                    name += "'"
                 self._param_name_bindings[name] = fixture
             else:
                 raise NotImplementedError() # pragma: no cover
-- 
2.43.0


From 79d1d96ea114279daccfa9ce9e1a59286fcd0e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:05 +0000
Subject: [PATCH 20/38] fix: take parameters of fixtures used by fixtures into
 account

---
 slash/core/variation_factory.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/slash/core/variation_factory.py b/slash/core/variation_factory.py
index b7c8a20..a1082ea 100644
--- a/slash/core/variation_factory.py
+++ b/slash/core/variation_factory.py
@@ -48,6 +48,8 @@ class VariationFactory(object):
 
         args = get_arguments(func)
 
+        used_fixture_names = list(getattr(func, '__extrafixtures__', []))
+
         parametrizations = {}
         for name, param in iter_parametrization_fixtures(func):
             # make sure the parametrization is in the store
@@ -66,6 +68,8 @@ class VariationFactory(object):
 
 
             self._needed_fixtures.append(fixture)
+            if fixture.is_fixture():
+                used_fixture_names.extend(getattr(fixture.fixture_func, '__extrafixtures__', []))
 
             arg_name = argument.name
             if namespace is not None:
@@ -77,10 +81,13 @@ class VariationFactory(object):
         for fixture in self._autouse_fixtures:
             self._populate_param_name_bindings(fixture.info.name, fixture, prefix='::')
 
-        for fixture_name in getattr(func, '__extrafixtures__', []):
+        for fixture_name in used_fixture_names:
             fixture = self._store.get_fixture_by_name(fixture_name)
             self._populate_param_name_bindings(fixture_name, fixture)
             self._needed_fixtures.append(fixture)
+            # fixtures used by the used fixture are activated with it
+            used_fixture_names.extend(name for name in getattr(fixture.fixture_func, '__extrafixtures__', [])
+                                      if name not in used_fixture_names)
 
 
     def _populate_param_name_bindings(self, arg_name, fixture_or_param, prefix=''):
-- 
2.43.0


From f5a2be48ad38f52c389a973de7a950ae56271834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:03 +0000
Subject: [PATCH 21/38] fix: the resume state keeps every unrun test, also
 those with the same address

---
 slash/resuming.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slash/resuming.py b/slash/resuming.py
index f477ac6..945aded 100644
--- a/slash/resuming.py
+++ b/slash/resuming.py
@@ -119,7 +119,7 @@ def save_resume_state(session_result, collected_tests):
         if result.is_skip():
             test_to_resume.status = ResumeTestStatus.SKIPPED
         tests_to_resume.append(test_to_resume)
-    tests_with_no_results = {test.__slash__ for test in collected_tests if session_result.safe_get_result(test) is None}
+    tests_with_no_results = [test.__slash__ for test in collected_tests if session_result.safe_get_result(test) is None]
 
     for test_metadata in tests_with_no_results:
         test_to_resume = ResumeState(session_id=session_result.session.id, file_name=test_metadata.file_path,\
-- 
2.43.0


From 3af8e08c5104e9181565be26905be132843f511c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:32 +0000
Subject: [PATCH 22/38] fix: resume tests marked with repeat as often as they
 are listed in the resume state

---
 slash/core/metadata.py | 2 ++
 slash/loader.py        | 4 +++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/slash/core/metadata.py b/slash/core/metadata.py
index fa53170..ea95a20 100644
--- a/slash/core/metadata.py
+++ b/slash/core/metadata.py
@@ -23,6 +23,8 @@ class Metadata(object):
         self._sort_key = next(_sort_key_generator)
         self.repeat_all_index = 0
         self.parallel_index = None
+        #: Whether the test is resumed from a previous session (in which repetitions are listed one by one)
+        self.is_resumed = False
         if factory is not None:
             #: The path to the file from which this test was loaded
             self.module_name = factory.get_module_name()
diff --git a/slash/loader.py b/slash/loader.py
index c22e50a..c89e332 100644
--- a/slash/loader.py
+++ b/slash/loader.py
@@ -80,7 +80,8 @@ class Loader(object):
         returned = []
         repeat_each = config.root.run.repeat_each
         for test in tests:
-            for i in range(repeat_each * repeat_marker.get_value(test.get_test_function(), 1)):
+            repeat_test = 1 if test.__slash__.is_resumed else repeat_marker.get_value(test.get_test_function(), 1)
+            for i in range(repeat_each * repeat_test):
                 returned.append(test.clone() if i else test)
         num_tests = len(returned)
         for i in range(config.root.run.repeat_all - 1):
@@ -131,6 +132,7 @@ class Loader(object):
                 if resume_state.variation:
                     if not resume_state.variation == test.get_variation().id:
                         continue
+                test.__slash__.is_resumed = True
                 yield test
 
     def _iter_test_address(self, address):
-- 
2.43.0


From 2cc1150ce6bad55dc205219801fac2a2b521b904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:59 +0000
Subject: [PATCH 23/38] fix: an exception which forwards attribute access does
 not share the bookkeeping of another exception

---
 slash/core/error.py           |  2 +-
 slash/utils/exception_mark.py | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/slash/core/error.py b/slash/core/error.py
index 1b3f020..c18401b 100644
--- a/slash/core/error.py
+++ b/slash/core/error.py
@@ -94,7 +94,7 @@ class Error(object):
         _, exc_value, _ = exc_info
         if exc_value is None:
             return None
-        cached = getattr(exc_value, _CAPTURED_ERROR_MARKER, None)
+        cached = vars(exc_value).get(_CAPTURED_ERROR_MARKER)
         if cached is not None:
             return cached
         returned = cls(exc_info=exc_info)
diff --git a/slash/utils/exception_mark.py b/slash/utils/exception_mark.py
index d3da686..872494c 100644
--- a/slash/utils/exception_mark.py
+++ b/slash/utils/exception_mark.py
@@ -21,12 +21,12 @@ _EXCEPTION_MARKS_NAME = '__slash_exc_marks__'
 
 
 def _ensure_exception_marks(e):
-    returned = getattr(e, _EXCEPTION_MARKS_NAME, None)
-    if returned is not None and _EXCEPTION_MARKS_NAME not in vars(e):
-        returned = copy.deepcopy(returned)
-        safe_set_attribute(e, _EXCEPTION_MARKS_NAME, returned)
+    returned = vars(e).get(_EXCEPTION_MARKS_NAME)
     if returned is None:
-        returned = {}
+        # exceptions start with the marks of their class. Not looked up on the exception itself, as exceptions can
+        # forward attribute access to other exceptions (e.g. through __getattr__)
+        source = e if isinstance(e, type) else type(e)
+        returned = copy.deepcopy(getattr(source, _EXCEPTION_MARKS_NAME, None)) or {}
         safe_set_attribute(e, _EXCEPTION_MARKS_NAME, returned)
     return returned
 
-- 
2.43.0


From fbf29775bed292e08551e8d3506ca90fc2d1ca01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:59 +0000
Subject: [PATCH 24/38] fix: record a failure with the exception it was given,
 not the one currently handled

---
 slash/core/result.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/slash/core/result.py b/slash/core/result.py
index 856631a..982a61d 100644
--- a/slash/core/result.py
+++ b/slash/core/result.py
@@ -91,7 +91,8 @@ class Result(object):
 
         _ADDED_TO_RESULT.mark_exception(exc_value)
         if isinstance(exc_value, exceptions.FAILURE_EXCEPTION_TYPES):
-            self.add_failure()
+            is_current = sys.exc_info()[1] is exc_value
+            self.add_failure(exc_info=None if is_current else exc_info)
         elif isinstance(exc_value, context.session.get_skip_exception_types()):
             self.add_skip(getattr(exc_value, 'reason', str(exc_value)))
         elif isinstance(exc_value, exceptions.INTERRUPTION_EXCEPTIONS):
-- 
2.43.0


From e22e4d2f75e9a60508809c20bcb51793f5e32920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:33 +0000
Subject: [PATCH 25/38] fix: record exceptions whose representation cannot be
 computed

---
 slash/core/error.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/slash/core/error.py b/slash/core/error.py
index c18401b..db59448 100644
--- a/slash/core/error.py
+++ b/slash/core/error.py
@@ -39,7 +39,11 @@ class Error(object):
         self.exc_info = exc_info
         if exc_info is not None:
             self.exception_type, exception, tb = exc_info  # pylint: disable=unpacking-non-sequence
-            self.exception_str = repr(exception)
+            try:
+                self.exception_str = repr(exception)
+            except Exception: # pylint: disable=broad-except
+                _logger.trace('Failed getting the representation of an exception', exc_info=True)
+                self.exception_str = '<unprintable {} object>'.format(self.exception_type.__name__)
             self._exception_attributes = distill_object_attributes(exception, truncate=False)
             self.traceback = distill_traceback(
                 tb, frame_correction=get_exception_frame_correction(exception))
-- 
2.43.0


From 8be5fa9e16dc609e48e0596cc26e4c8644b35012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:02 +0000
Subject: [PATCH 26/38] Revert the changes to files which count as tests, keep
 the fixtures of before and after

---
 slash/core/function_test.py |  2 +-
 slash/core/runnable_test.py | 11 -----------
 slash/core/test.py          |  2 +-
 3 files changed, 2 insertions(+), 13 deletions(-)

diff --git a/slash/core/function_test.py b/slash/core/function_test.py
index 54e35d1..1748ef1 100644
--- a/slash/core/function_test.py
+++ b/slash/core/function_test.py
@@ -43,7 +43,7 @@ class FunctionTest(RunnableTest):
         return list(set(test_requirements + self._get_fixtures_requirements()))
 
     def get_required_fixture_objects(self):
-        return self._get_fixture_objects_required_by(self._func)
+        return self._fixture_store.get_required_fixture_objects(self._func, namespace=self._fixture_namespace)
 
 
 class FunctionTestFactory(RunnableTestFactory):
diff --git a/slash/core/runnable_test.py b/slash/core/runnable_test.py
index ae8f14a..f8959f7 100644
--- a/slash/core/runnable_test.py
+++ b/slash/core/runnable_test.py
@@ -67,17 +67,6 @@ class RunnableTest(object):
     def get_requirements(self):
         raise NotImplementedError() # pragma: no cover
 
-    def _get_fixture_objects_required_by(self, func):
-        store, namespace = self._fixture_store, self._fixture_namespace
-        returned = store.get_required_fixture_objects(func, namespace=namespace)
-        pending = [func] + [fixture.fixture_func for fixture in returned]
-        while pending:
-            names = getattr(pending.pop(), '__extrafixtures__', ())
-            used = set(store.get_fixture_dict(names, namespace=namespace, get_values=False).values()) - returned
-            returned.update(used)
-            pending.extend(fixture.fixture_func for fixture in used)
-        return returned
-
     def get_required_fixture_objects(self):
         raise NotImplementedError() # pragma: no cover
 
diff --git a/slash/core/test.py b/slash/core/test.py
index 302821e..08f3fd3 100644
--- a/slash/core/test.py
+++ b/slash/core/test.py
@@ -95,7 +95,7 @@ class Test(RunnableTest):
         returned = set()
         for method in (self.before, self.get_test_function(), self.after):
             if not nofixtures.is_marked(method):
-                returned.update(self._get_fixture_objects_required_by(method))
+                returned.update(self._fixture_store.get_required_fixture_objects(method, namespace=self._fixture_namespace))
         return returned
 
     def get_address_in_factory(self):
-- 
2.43.0


From 0c345472d7ea9357160b49a147ed662c2352942c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:08 +0000
Subject: [PATCH 27/38] fix: a skip raised by a test_end hook or a requirement
 does not end the run

---
 slash/runner.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/slash/runner.py b/slash/runner.py
index fe26826..0fa4bc5 100644
--- a/slash/runner.py
+++ b/slash/runner.py
@@ -1,4 +1,4 @@
-from contextlib import contextmanager, ExitStack
+from contextlib import contextmanager, suppress, ExitStack
 
 import logbook
 
@@ -94,7 +94,8 @@ def _run_single_test(test, test_iterator):
         # sets the current result, test id etc.
         result, prev_result = exit_stack.enter_context(_get_test_context(test))
 
-        with handling_exceptions(swallow=True):
+        # skips are not swallowed when they are handled, wherever they were raised they only concern this test
+        with suppress(*context.session.get_skip_exception_types()), handling_exceptions(swallow=True):
 
 
             should_run = _process_requirements_and_exclusions(test)
-- 
2.43.0


From 444fb9457c8d14d3cfaf6fe3e3b680acc150d134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:32 +0000
Subject: [PATCH 28/38] fix: activating an active plugin does not register its
 callbacks again

---
 slash/plugins/plugin_manager.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/slash/plugins/plugin_manager.py b/slash/plugins/plugin_manager.py
index 6d5a97e..370290d 100644
--- a/slash/plugins/plugin_manager.py
+++ b/slash/plugins/plugin_manager.py
@@ -214,6 +214,8 @@ class PluginManager(object):
         """
         plugin = self._get_installed_plugin(plugin)
         plugin_name = plugin.get_name()
+        if plugin_name in self._active:
+            return
         if self._is_parallel_supported(plugin):
             _logger.warn("Activating plugin {} though it's configuration for parallel mode doesn't fit to current session".format(plugin.get_name()))
         plugin.activate()
-- 
2.43.0


From 98e605f26c8f40387924339fe76d9c0b660b2035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:32 +0000
Subject: [PATCH 29/38] fix: a plugin whose hook registration fails midway is
 left with no active callbacks

---
 slash/plugins/plugin_manager.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/slash/plugins/plugin_manager.py b/slash/plugins/plugin_manager.py
index 370290d..3677520 100644
--- a/slash/plugins/plugin_manager.py
+++ b/slash/plugins/plugin_manager.py
@@ -219,8 +219,12 @@ class PluginManager(object):
         if self._is_parallel_supported(plugin):
             _logger.warn("Activating plugin {} though it's configuration for parallel mode doesn't fit to current session".format(plugin.get_name()))
         plugin.activate()
-        for hook, callback, kwargs in self._get_plugin_registrations(plugin):
-            hook.register(callback, **kwargs)
+        try:
+            for hook, callback, kwargs in self._get_plugin_registrations(plugin):
+                hook.register(callback, **kwargs)
+        except:
+            gossip.get_global_group().unregister_token(self._get_token(plugin_name))
+            raise
         self._active.add(plugin_name)
 
     def activate_later(self, plugin):
-- 
2.43.0


From 5c233a3ed93f59f09c8509e487d0e755186b6cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:32 +0000
Subject: [PATCH 30/38] fix: deactivating a plugin with session_end only
 removes everything registered for it

---
 slash/plugins/plugin_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slash/plugins/plugin_manager.py b/slash/plugins/plugin_manager.py
index 3677520..02e8599 100644
--- a/slash/plugins/plugin_manager.py
+++ b/slash/plugins/plugin_manager.py
@@ -410,7 +410,7 @@ class PluginManager(object):
 
         if has_session_end and not has_session_start:
             hook = gossip.get_hook('slash.session_start')
-            returned.append((hook, lambda: None, {'toggles_on': plugin.__toggles__['session']}))
+            returned.append((hook, lambda: None, {'toggles_on': plugin.__toggles__['session'], 'token': self._get_token(plugin_name)}))
             register_no_op_hooks.discard(hook.full_name)
 
         for hook_name in register_no_op_hooks:
-- 
2.43.0


From 8ae796ce2f58db200fccbb1144606c42d05bb2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:32 +0000
Subject: [PATCH 31/38] fix: installing a plugin under the name of another one
 does not leave the callbacks of the other one active

---
 slash/plugins/plugin_manager.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/slash/plugins/plugin_manager.py b/slash/plugins/plugin_manager.py
index 02e8599..efef4c5 100644
--- a/slash/plugins/plugin_manager.py
+++ b/slash/plugins/plugin_manager.py
@@ -148,6 +148,9 @@ class PluginManager(object):
         if any(char in plugin_name for char in _DEPRECATED_CHARACTERS):
             warn_deprecation("In the future, dashes and underscore will not be allowed in plugin names - "
                              "spaces should be used instead (plugin name: {!r})".format(plugin_name))
+        replaced = self._get_installed_plugin_instance_by_name(plugin_name)
+        if replaced is not None and replaced is not plugin:
+            self.uninstall(replaced)
         self._configure(plugin)
         self._installed[plugin_name] = PluginInfo(plugin, is_internal)
         self._cmd_line_to_name[self.normalize_command_line_name(plugin_name)] = plugin_name
-- 
2.43.0


From 1369dab8453814cd89fd71ca26e9119422dc6b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:32 +0000
Subject: [PATCH 32/38] fix: restoring the state of plugins brings back
 replaced plugins and internal ones as such

---
 slash/plugins/plugin_manager.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/slash/plugins/plugin_manager.py b/slash/plugins/plugin_manager.py
index efef4c5..274a6dc 100644
--- a/slash/plugins/plugin_manager.py
+++ b/slash/plugins/plugin_manager.py
@@ -49,8 +49,9 @@ class PluginManager(object):
         try:
             yield
         finally:
-            for name in set(previous_installed) - set(self._installed):
-                self.install(previous_installed[name].plugin_instance)
+            for name, info in previous_installed.items():
+                if self._installed.get(name) != info:
+                    self.install(info.plugin_instance, is_internal=info.is_internal)
             for name in set(previous_active) - self._active:
                 self.activate(name)
             for name in self._active - set(previous_active):
-- 
2.43.0


From 5d328acc8c19fe98d78a850ff9f9b4197b108e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:24 +0000
Subject: [PATCH 33/38] fix: activating a plugin that provides for all hooks is
 not refused after another plugin asked for an unknown hook

---
 slash/plugins/plugin_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slash/plugins/plugin_manager.py b/slash/plugins/plugin_manager.py
index 274a6dc..2c4b47a 100644
--- a/slash/plugins/plugin_manager.py
+++ b/slash/plugins/plugin_manager.py
@@ -343,7 +343,7 @@ class PluginManager(object):
 
         register_no_op_hooks = set()
         if global_provides:
-            register_no_op_hooks.update(hook.full_name for hook in gossip.get_group('slash').get_hooks())
+            register_no_op_hooks.update(hook.full_name for hook in gossip.get_group('slash').get_hooks() if hook.is_defined())
 
         for method_name in dir(type(plugin)):
             if method_name in _SKIPPED_PLUGIN_METHOD_NAMES:
-- 
2.43.0


From e659246d2f7ee5aa3a1df7d344c5283c08d9a25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:28 +0000
Subject: [PATCH 34/38] fix: a command line override of a list with something
 else is rejected

---
 slash/utils/cli_utils.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/slash/utils/cli_utils.py b/slash/utils/cli_utils.py
index 25cd87a..4a4ea4c 100644
--- a/slash/utils/cli_utils.py
+++ b/slash/utils/cli_utils.py
@@ -1,5 +1,6 @@
 from __future__ import print_function
 import argparse
+import ast
 import os
 import sys
 from contextlib import contextmanager
@@ -83,11 +84,14 @@ def get_modified_configuration_from_args_context(parser, args, config=None):
         for override in args.config_overrides:
             if "=" not in override:
                 parser.error("Invalid config override: {}".format(override))
-            path, _ = override.split("=", 1)
-            to_restore.append((path, config.get_path(path)))
+            path, value = override.split("=", 1)
+            prev_value = config.get_path(path)
             try:
+                if isinstance(prev_value, (list, tuple)) and not isinstance(ast.literal_eval(value), type(prev_value)):
+                    raise ValueError(value)
+                to_restore.append((path, prev_value))
                 config.assign_path_expression(override, deduce_type=True, default_type=str)
-            except ValueError:
+            except (ValueError, SyntaxError):
                 parser.error("Invalid value for config override: {}".format(override))
         yield
     finally:
-- 
2.43.0


From b4e93d46dc7fe7d01928269deda01ac2cad98044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:40 +0000
Subject: [PATCH 35/38] fix: a rejected override of a whole configuration
 section does not prevent the rest from being restored

---
 slash/utils/cli_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/slash/utils/cli_utils.py b/slash/utils/cli_utils.py
index 4a4ea4c..4274d8e 100644
--- a/slash/utils/cli_utils.py
+++ b/slash/utils/cli_utils.py
@@ -87,12 +87,12 @@ def get_modified_configuration_from_args_context(parser, args, config=None):
             path, value = override.split("=", 1)
             prev_value = config.get_path(path)
             try:
-                if isinstance(prev_value, (list, tuple)) and not isinstance(ast.literal_eval(value), type(prev_value)):
+                if isinstance(prev_value, (list, tuple)) and type(ast.literal_eval(value)) is not type(prev_value):
                     raise ValueError(value)
-                to_restore.append((path, prev_value))
                 config.assign_path_expression(override, deduce_type=True, default_type=str)
             except (ValueError, SyntaxError):
                 parser.error("Invalid value for config override: {}".format(override))
+            to_restore.append((path, prev_value))
         yield
     finally:
         for path, prev_value in reversed(to_restore):
-- 
2.43.0


From 5ac03637bb468f68db58328226a7e4ef4f9e0c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:08 +0000
Subject: [PATCH 36/38] fix: records of other threads are missing in a unified
 session log

---
 slash/log.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slash/log.py b/slash/log.py
index 75b3d07..5f53fbd 100644
--- a/slash/log.py
+++ b/slash/log.py
@@ -195,7 +195,7 @@ class SessionLogging(object):
             for extra_handler in _extra_handlers:
                 stack.enter_context(extra_handler.applicationbound())
             if config.root.log.unified_session_log and self.session_log_handler is not None:
-                stack.enter_context(_make_bubbling_handler(self.session_log_handler))
+                stack.enter_context(_make_bubbling_handler(self.session_log_handler).applicationbound())
             if config.root.run.capture.error_logs_as_errors:
                 stack.enter_context(ErrorHandler().applicationbound())
 
-- 
2.43.0


From a13108468ea23368b49136d0628bb6cdcd033123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:25 +0000
Subject: [PATCH 37/38] fix: the log of an unsuccessful test was removed by a
 later successful test with the same log path

---
 slash/log.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/slash/log.py b/slash/log.py
index 5f53fbd..f2f7f5d 100644
--- a/slash/log.py
+++ b/slash/log.py
@@ -144,6 +144,8 @@ class SessionLogging(object):
         self.test_log_path = None
         self._set_formatting(self.console_handler, config.root.log.console_format or config.root.log.format)
         self._log_path_to_handler = {}
+        #: logs of unsuccessful runs, which stay even when a successful run writes to the same path
+        self._retained_log_paths = set()
 
     def get_active_log_paths(self):
         return [log_path for log_path, handler in self._log_path_to_handler.items() if handler is not None]
@@ -278,7 +280,9 @@ class SessionLogging(object):
                     self._log_path_to_handler[log_path] = None
                     with handling_exceptions(swallow=True):
                         hooks.log_file_closed(path=log_path, result=result)  # pylint: disable=no-member
-                    if config.root.log.cleanup.enabled and self._should_delete_log(result):
+                    if not self._should_delete_log(result):
+                        self._retained_log_paths.add(log_path)
+                    elif config.root.log.cleanup.enabled and log_path not in self._retained_log_paths:
                         with handling_exceptions(swallow=True):
                             os.remove(log_path)
                             dir_path = os.path.dirname(log_path)
-- 
2.43.0


From 0336e52f97f76ba9b770e9d897b1430da0388c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:49:54 +0000
Subject: [PATCH 38/38] fix: records of a test were written twice to a unified
 session log which is the log of the test as well

---
 slash/log.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slash/log.py b/slash/log.py
index f2f7f5d..eccec8a 100644
--- a/slash/log.py
+++ b/slash/log.py
@@ -196,7 +196,7 @@ class SessionLogging(object):
                 stack.enter_context(logbook.StreamHandler(sys.stderr, bubble=True, level=logbook.TRACE))
             for extra_handler in _extra_handlers:
                 stack.enter_context(extra_handler.applicationbound())
-            if config.root.log.unified_session_log and self.session_log_handler is not None:
+            if config.root.log.unified_session_log and self.session_log_handler not in (None, handler):
                 stack.enter_context(_make_bubbling_handler(self.session_log_handler).applicationbound())
             if config.root.run.capture.error_logs_as_errors:
                 stack.enter_context(ErrorHandler().applicationbound())
-- 
2.43.0

