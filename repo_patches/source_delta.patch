From 38509b13e34a03b08f1bb50c77851ab938d032d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:05 +0000
Subject: [PATCH 01/77] fix: keep a single reference given to a reference set
 as one member

BaseReferenceSet(ref) unpacked the reference into its start and end bounds,
so a DTS answer with one member became a set of two strings.
---
 MyCapytain/common/reference/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/common/reference/_base.py b/MyCapytain/common/reference/_base.py
index 674042a..7656c16 100644
--- a/MyCapytain/common/reference/_base.py
+++ b/MyCapytain/common/reference/_base.py
@@ -356,7 +356,7 @@ class BaseReferenceSet(tuple):
 
     """
     def __new__(cls, *refs, citation: BaseCitationSet=None, level: int=1):
-        if len(refs) == 1 and not isinstance(refs, BaseReference):
+        if len(refs) == 1 and not isinstance(refs[0], BaseReference):
             refs = refs[0]
         obj = tuple.__new__(cls, refs)
         obj._citation = None
-- 
2.43.0


From f78aa87b33a54f3fb9d9eca2d684ef163746fa42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:05 +0000
Subject: [PATCH 02/77] fix: find a typed DTS reference by its text

DtsReferenceSet.__contains__ compared the text to an untyped reference, which
never equals a typed one.
---
 MyCapytain/common/reference/_dts_1.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/common/reference/_dts_1.py b/MyCapytain/common/reference/_dts_1.py
index 6074313..d698343 100644
--- a/MyCapytain/common/reference/_dts_1.py
+++ b/MyCapytain/common/reference/_dts_1.py
@@ -46,8 +46,10 @@ class DtsReference(BaseReference):
 
 class DtsReferenceSet(BaseReferenceSet):
     def __contains__(self, item: str) -> bool:
-        return BaseReferenceSet.__contains__(self, item) or \
-               BaseReferenceSet.__contains__(self, DtsReference(item))
+        if isinstance(item, str):
+            # The text of a reference does not tell its type
+            return any(tuple(ref) == (item, None) for ref in self)
+        return BaseReferenceSet.__contains__(self, item)
 
     def __eq__(self, other):
         return super(DtsReferenceSet, self).__eq__(other) and \
-- 
2.43.0


From db23e597099bc0b7183d7bc243f3e5feba629a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:50 +0000
Subject: [PATCH 03/77] fix: keep every character of a refsDecl when splitting
 it into scope and xpath

Characters outside a fixed list (-, _, comma, ...) were dropped from the scope
and the xpath.
---
 MyCapytain/common/reference/_capitains_cts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/common/reference/_capitains_cts.py b/MyCapytain/common/reference/_capitains_cts.py
index 0353b07..5494f37 100644
--- a/MyCapytain/common/reference/_capitains_cts.py
+++ b/MyCapytain/common/reference/_capitains_cts.py
@@ -7,7 +7,7 @@ from MyCapytain.common.utils.xml import make_xml_node
 
 from ._base import BaseCitation, BaseReference, BaseReferenceSet
 
-REFSDECL_SPLITTER = re.compile(r"/+[*()|\sa-zA-Z0-9:\[\]@=\\{$'\".\s]+")
+REFSDECL_SPLITTER = re.compile(r"/+[^/]+")
 REFSDECL_REPLACER = re.compile(r"\$[0-9]+")
 SUBREFERENCE = re.compile(r"(\w*)\[?([0-9]*)\]?", re.UNICODE)
 REFERENCE_REPLACER = re.compile(r"(@[a-zA-Z0-9:]+)(=)([\\$'\"?0-9]{3,6})")
-- 
2.43.0


From e09cfaca6d59049359e3e082e0855c392f800014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:50 +0000
Subject: [PATCH 04/77] fix: build a citation whose scope is empty

A citation of one step has an empty scope; building it from its scope and
xpath (which is how an inventory is read back) left it unset.
---
 MyCapytain/common/reference/_capitains_cts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/common/reference/_capitains_cts.py b/MyCapytain/common/reference/_capitains_cts.py
index 5494f37..9fceb93 100644
--- a/MyCapytain/common/reference/_capitains_cts.py
+++ b/MyCapytain/common/reference/_capitains_cts.py
@@ -696,7 +696,7 @@ class Citation(BaseCitation):
         self.__refsDecl = None
 
         self.name = name
-        if scope and xpath:
+        if scope is not None and xpath:
             self._fromScopeXpathToRefsDecl(scope, xpath)
         else:
             self.refsDecl = refsDecl
-- 
2.43.0


From cbe36ece6a457b2c038e39e8e8deaee82188b93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:52 +0000
Subject: [PATCH 05/77] fix: fill only the place-holders of a refsDecl

A constant numeric test such as @type='1' was taken for a place-holder and
consumed a component of the passage.
---
 MyCapytain/common/reference/_capitains_cts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/common/reference/_capitains_cts.py b/MyCapytain/common/reference/_capitains_cts.py
index 9fceb93..6413cfd 100644
--- a/MyCapytain/common/reference/_capitains_cts.py
+++ b/MyCapytain/common/reference/_capitains_cts.py
@@ -10,7 +10,7 @@ from ._base import BaseCitation, BaseReference, BaseReferenceSet
 REFSDECL_SPLITTER = re.compile(r"/+[^/]+")
 REFSDECL_REPLACER = re.compile(r"\$[0-9]+")
 SUBREFERENCE = re.compile(r"(\w*)\[?([0-9]*)\]?", re.UNICODE)
-REFERENCE_REPLACER = re.compile(r"(@[a-zA-Z0-9:]+)(=)([\\$'\"?0-9]{3,6})")
+REFERENCE_REPLACER = re.compile(r"(@[a-zA-Z0-9:]+)(=)(\\?['\"](?:\$[0-9]+|\?)\\?['\"])")
 
 
 def _child_or_none(liste):
-- 
2.43.0


From f4754ebd89128f402ad6db4427bf654a1a4a97ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:52 +0000
Subject: [PATCH 06/77] fix: fill the xpath of a citation with any passage text

The passage was used as a regular expression template, in which backslashes
are not literal.
---
 MyCapytain/common/reference/_capitains_cts.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/MyCapytain/common/reference/_capitains_cts.py b/MyCapytain/common/reference/_capitains_cts.py
index 6413cfd..ee3efa6 100644
--- a/MyCapytain/common/reference/_capitains_cts.py
+++ b/MyCapytain/common/reference/_capitains_cts.py
@@ -852,11 +852,13 @@ class Citation(BaseCitation):
         if xpath is True:  # Then passage is a string or None
             xpath = self.xpath
 
-            replacement = r"\1"
-            if isinstance(passage, str):
-                replacement = r"\1\2'" + passage + "'"
+            if not isinstance(passage, str):
+                passage = None
 
-            return REFERENCE_REPLACER.sub(replacement, xpath)
+            return REFERENCE_REPLACER.sub(
+                lambda m: _ref_replacer(m, iter([passage])),
+                xpath
+            )
         else:
             if isinstance(passage, CtsReference):
                 passage = passage.start.list
-- 
2.43.0


From 07e2f666704597248b8368f6b74f0a1bb3347810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:20 +0000
Subject: [PATCH 07/77] fix: give every citation of a tree the same root

Only the direct children of the citation being built got its root, and
add_child set none, so that deeper citations took themselves or their parent
for the root.
---
 MyCapytain/common/reference/_base.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/MyCapytain/common/reference/_base.py b/MyCapytain/common/reference/_base.py
index 7656c16..eb800f5 100644
--- a/MyCapytain/common/reference/_base.py
+++ b/MyCapytain/common/reference/_base.py
@@ -61,6 +61,10 @@ class BaseCitationSet(Exportable):
         :return:
         """
         if isinstance(child, BaseCitation):
+            if isinstance(self, BaseCitation):
+                child.root = self.root
+            else:
+                child.root = self
             self._children.append(child)
 
     def __iter__(self):
@@ -242,6 +246,9 @@ class BaseCitation(BaseCitationSet):
         :return:
         """
         self._root = value
+        # Descendants share the root of their parent
+        for child in self.children:
+            child.root = self.root
 
     @property
     def name(self) -> str:
-- 
2.43.0


From 357719e5882e8138c3ffa05fa6cda59baff79a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:52 +0000
Subject: [PATCH 08/77] fix: escape attribute values of exported XML nodes

make_xml_node wrote labels, scopes and xpaths as they are, so that a quote, an
ampersand or a < made the document malformed.
---
 MyCapytain/common/utils/xml.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/common/utils/xml.py b/MyCapytain/common/utils/xml.py
index 8b9d15d..e048dd0 100644
--- a/MyCapytain/common/utils/xml.py
+++ b/MyCapytain/common/utils/xml.py
@@ -44,7 +44,7 @@ def make_xml_node(graph, name, close=False, attributes=None, text="", complete=F
                 name,
                 " ".join(
                     [
-                        "{}=\"{}\"".format(attr_name, attr_value)
+                        "{}=\"{}\"".format(attr_name, escape(str(attr_value), {"\"": "&quot;"}))
                         for attr_name, attr_value in attributes.items()
                     ]
                 ),
@@ -59,7 +59,7 @@ def make_xml_node(graph, name, close=False, attributes=None, text="", complete=F
             name,
             " ".join(
                 [
-                    "{}=\"{}\"".format(attr_name, attr_value)
+                    "{}=\"{}\"".format(attr_name, escape(str(attr_value), {"\"": "&quot;"}))
                     for attr_name, attr_value in attributes.items()
                 ]
             )
-- 
2.43.0


From 7aabd2b07dee6eb5da324d7acb7d307c9a45b350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:52 +0000
Subject: [PATCH 09/77] fix: escape the name and pattern of a citation exported
 to TEI

An ampersand or a < in either made the cRefPattern malformed.
---
 MyCapytain/common/reference/_capitains_cts.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/common/reference/_capitains_cts.py b/MyCapytain/common/reference/_capitains_cts.py
index ee3efa6..5181dcd 100644
--- a/MyCapytain/common/reference/_capitains_cts.py
+++ b/MyCapytain/common/reference/_capitains_cts.py
@@ -1,5 +1,6 @@
 import re
 from typing import Optional, List, Union, Tuple
+from xml.sax.saxutils import escape as xml_escape
 from lxml.etree import _Element
 
 from MyCapytain.common.constants import Mimetypes, get_graph, RDF_NAMESPACES, XPATH_NAMESPACES
@@ -912,8 +913,8 @@ class Citation(BaseCitation):
             return \
                 "<tei:cRefPattern n=\"{label}\" matchPattern=\"{regexp}\" replacementPattern=\"#xpath({refsDecl})\">" \
                 "<tei:p>This pointer pattern extracts {label}</tei:p></tei:cRefPattern>".format(
-                    refsDecl=self.refsDecl,
-                    label=label,
+                    refsDecl=xml_escape(self.refsDecl),
+                    label=xml_escape(label, {"\"": "&quot;"}),
                     regexp="\.".join(["(\w+)"]*self.refsDecl.count("$"))
                 )
 
-- 
2.43.0


From dc0b84924798c4281ee8895f414274281374dad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:24 +0000
Subject: [PATCH 10/77] fix: compare nodes by identity when cutting a range of
 passages

---
 MyCapytain/common/utils/xml.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/MyCapytain/common/utils/xml.py b/MyCapytain/common/utils/xml.py
index e048dd0..d8d8423 100644
--- a/MyCapytain/common/utils/xml.py
+++ b/MyCapytain/common/utils/xml.py
@@ -223,7 +223,7 @@ def passageLoop(parent, new_tree, xpath1, xpath2=None, preceding_siblings=False,
         # For each sibling, when we need them in the context of a range
         if preceding_siblings or following_siblings:
             for sibling in xmliter(parent):
-                if sibling == result_1:
+                if sibling is result_1:
                     central = True
                     # We copy the node we looked for (Result_1)
                     child = copyNode(result_1, children=has_no_queue, parent=new_tree)
@@ -264,7 +264,7 @@ def passageLoop(parent, new_tree, xpath1, xpath2=None, preceding_siblings=False,
         else:
             result_2 = result_1
 
-        if result_1 == result_2:
+        if result_1 is result_2:
             has_no_queue = len(queue_1) == 0
             child = copyNode(result_1, children=has_no_queue, parent=new_tree)
             if not has_no_queue:
@@ -283,13 +283,13 @@ def passageLoop(parent, new_tree, xpath1, xpath2=None, preceding_siblings=False,
                 if start:
                     # If we are at the end
                     # We break the copy
-                    if sibling == result_2:
+                    if sibling is result_2:
                         break
                     else:
                         copyNode(sibling, parent=new_tree, children=True)
                 # If this is start
                 # Then we copy it and initiate star
-                elif sibling == result_1:
+                elif sibling is result_1:
                     start = True
                     has_no_queue_1 = len(queue_1) == 0
                     node = copyNode(sibling, children=has_no_queue_1, parent=new_tree)
-- 
2.43.0


From e31614a2cb06c84398bcf5b050cb0221971fb377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:14 +0000
Subject: [PATCH 11/77] fix: accept ranges whose start is inside their end when
 listing references

---
 MyCapytain/resources/texts/local/capitains/cts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/resources/texts/local/capitains/cts.py b/MyCapytain/resources/texts/local/capitains/cts.py
index ef01fc8..22dbea3 100644
--- a/MyCapytain/resources/texts/local/capitains/cts.py
+++ b/MyCapytain/resources/texts/local/capitains/cts.py
@@ -204,7 +204,7 @@ class _SharedMethods(TeiResource):
                     common = []
 
                     for index, part in enumerate(reference.start.list):
-                        if index <= reference.end.depth:
+                        if index < reference.end.depth:
                             if part == reference.end.list[index]:
                                 common.append(part)
                             else:
-- 
2.43.0


From 8496d0d926f15e411d33b81ba21231c83fe0d11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:14 +0000
Subject: [PATCH 12/77] fix: cut ranges where one bound contains the other

---
 MyCapytain/common/utils/xml.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/common/utils/xml.py b/MyCapytain/common/utils/xml.py
index d8d8423..5bbe629 100644
--- a/MyCapytain/common/utils/xml.py
+++ b/MyCapytain/common/utils/xml.py
@@ -265,15 +265,20 @@ def passageLoop(parent, new_tree, xpath1, xpath2=None, preceding_siblings=False,
             result_2 = result_1
 
         if result_1 is result_2:
-            has_no_queue = len(queue_1) == 0
+            has_no_queue = len(queue_1) == 0 and len(queue_2) == 0
             child = copyNode(result_1, children=has_no_queue, parent=new_tree)
-            if not has_no_queue:
+            if len(queue_1) and len(queue_2):
                 passageLoop(
                     result_1,
                     child,
                     queue_1,
                     queue_2
                 )
+            # When one bound contains the other one
+            elif len(queue_1):
+                passageLoop(result_1, child, queue_1, None, following_siblings=True)
+            elif len(queue_2):
+                passageLoop(result_1, child, queue_2, None, preceding_siblings=True)
         else:
             start = False
             # For each sibling
-- 
2.43.0


From 2502f5bc57dc692ac0dd407ab42c69338113a809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:38 +0000
Subject: [PATCH 13/77] fix: copy comments lying inside a range of passages as
 comments

---
 MyCapytain/common/utils/xml.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/MyCapytain/common/utils/xml.py b/MyCapytain/common/utils/xml.py
index 5bbe629..d215854 100644
--- a/MyCapytain/common/utils/xml.py
+++ b/MyCapytain/common/utils/xml.py
@@ -161,6 +161,12 @@ def copyNode(node, children=False, parent=False):
     :param parent: Append copied node to parent if given
     :return: New Element
     """
+    if parent is not False and children:
+        # Complete copy : works as well for comments and processing instructions
+        element = copy(node)
+        element.tail = None
+        parent.append(element)
+        return element
     if parent is not False:
         element = SubElement(
             parent,
-- 
2.43.0


From 923d08e3c8bf502cadf5ff499bd11722e26a44c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:37 +0000
Subject: [PATCH 14/77] fix: neighbours of a range holding one passage

---
 MyCapytain/resources/texts/local/capitains/cts.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/MyCapytain/resources/texts/local/capitains/cts.py b/MyCapytain/resources/texts/local/capitains/cts.py
index 22dbea3..dbcd39f 100644
--- a/MyCapytain/resources/texts/local/capitains/cts.py
+++ b/MyCapytain/resources/texts/local/capitains/cts.py
@@ -634,13 +634,12 @@ class CapitainsCtsPassage(_SharedMethods, PrototypeCtsPassage):
 
         if self.reference.is_range():
             start, end = self.reference.start, self.reference.end
-            range_length = len(self.getReffs(level=0))
         else:
             start = end = self.reference.start
-            range_length = 1
 
         start = document_references.index(start)
         end = document_references.index(end)
+        range_length = end - start + 1
 
         if start == 0:
             # If the passage is already at the beginning
-- 
2.43.0


From fae1a5ac99442b7cbf42d7a266f8421b28ec1500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:50 +0000
Subject: [PATCH 15/77] fix: parentId of local passages

---
 .../resources/texts/local/capitains/cts.py    | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/MyCapytain/resources/texts/local/capitains/cts.py b/MyCapytain/resources/texts/local/capitains/cts.py
index dbcd39f..f1ce5a8 100644
--- a/MyCapytain/resources/texts/local/capitains/cts.py
+++ b/MyCapytain/resources/texts/local/capitains/cts.py
@@ -406,6 +406,16 @@ class _SimplePassage(_SharedMethods, PrototypeCtsPassage):
         """
         return self.siblingsId[0]
 
+    @property
+    def parentId(self) -> Optional[CtsReference]:
+        """ Reference of the passage containing this one
+
+        :returns: Reference of the parent, None for a passage of the first level
+        """
+        if self.reference:
+            return self.reference.parent
+        return None
+
     @property
     def siblingsId(self) -> Tuple[CtsReference, CtsReference]:
         """ Siblings Identifiers of the passage
@@ -617,6 +627,16 @@ class CapitainsCtsPassage(_SharedMethods, PrototypeCtsPassage):
         if self._depth != self._depth_2:
             raise InvalidSiblingRequest()
 
+    @property
+    def parentId(self) -> Optional[CtsReference]:
+        """ Reference of the passage containing this one
+
+        :returns: Reference of the parent, None for a passage of the first level
+        """
+        if self.reference:
+            return self.reference.parent
+        return None
+
     @property
     def siblingsId(self) -> Tuple[CtsReference, CtsReference]:
         """ Siblings Identifiers of the passage
-- 
2.43.0


From c4d58dcce2e492f47da9c73bf648302b670e8a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:50 +0000
Subject: [PATCH 16/77] fix: initialise the navigation part of textual nodes

---
 MyCapytain/resources/prototypes/text.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/resources/prototypes/text.py b/MyCapytain/resources/prototypes/text.py
index 03fa4bc..e0110ce 100644
--- a/MyCapytain/resources/prototypes/text.py
+++ b/MyCapytain/resources/prototypes/text.py
@@ -190,8 +190,12 @@ class TextualNode(TextualElement, NodeId):
     :cvar default_exclude: Default exclude for exports
     """
 
-    def __init__(self, identifier: str=None, citation: Citation=None, **kwargs):
+    def __init__(self, identifier: str=None, citation: Citation=None, children=None, parent=None,
+                 siblings=(None, None), depth=None, **kwargs):
         super(TextualNode, self).__init__(identifier=identifier, **kwargs)
+        NodeId.__init__(
+            self, identifier=identifier, children=children, parent=parent, siblings=siblings, depth=depth
+        )
         self._citation = citation or Citation()
 
     @property
@@ -306,7 +310,8 @@ class InteractiveTextualNode(TextualGraph):
         """ Parent TextualNode
 
         """
-        return self.getTextualNode(self.parentId)
+        if self.parentId is not None:
+            return self.getTextualNode(self.parentId)
 
     @property
     def first(self) -> TextualNode:
-- 
2.43.0


From 788a7a5755a5f71122b05885fb86d7913be7bfb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:40 +0000
Subject: [PATCH 17/77] fix: passages reached by next and prev keep the text
 they belong to

---
 MyCapytain/resources/texts/local/capitains/cts.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/resources/texts/local/capitains/cts.py b/MyCapytain/resources/texts/local/capitains/cts.py
index f1ce5a8..a651c96 100644
--- a/MyCapytain/resources/texts/local/capitains/cts.py
+++ b/MyCapytain/resources/texts/local/capitains/cts.py
@@ -697,14 +697,14 @@ class CapitainsCtsPassage(_SharedMethods, PrototypeCtsPassage):
         """ Next CapitainsCtsPassage (Interactive CapitainsCtsPassage)
         """
         if self.nextId is not None:
-            return super(CapitainsCtsPassage, self).getTextualNode(subreference=self.nextId)
+            return self.getTextualNode(subreference=self.nextId)
 
     @property
     def prev(self):
         """ Previous CapitainsCtsPassage (Interactive CapitainsCtsPassage)
         """
         if self.prevId is not None:
-            return super(CapitainsCtsPassage, self).getTextualNode(subreference=self.prevId)
+            return self.getTextualNode(subreference=self.prevId)
 
     def getTextualNode(self, subreference=None, *args, **kwargs):
         if not isinstance(subreference, CtsReference):
-- 
2.43.0


From 2ce8386d87780d6213a123f67158c711966caa89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:05 +0000
Subject: [PATCH 18/77] fix: leave the text following a passage out of its XML
 export

---
 MyCapytain/resources/texts/base/tei.py            | 2 +-
 MyCapytain/resources/texts/local/capitains/cts.py | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/MyCapytain/resources/texts/base/tei.py b/MyCapytain/resources/texts/base/tei.py
index 96bdd68..1b133e8 100644
--- a/MyCapytain/resources/texts/base/tei.py
+++ b/MyCapytain/resources/texts/base/tei.py
@@ -101,7 +101,7 @@ class TeiResource(InteractiveTextualNode):
 
         elif output == Mimetypes.XML.Std or output == Mimetypes.XML.TEI:
             # Exports the whole resource formatted as XML but as string object
-            return tostring(self.resource, encoding=str)
+            return tostring(self.resource, encoding=str, with_tail=False)
 
         elif output == Mimetypes.PYTHON.NestedDict:
             # Exports the whole resource into a NestedDict
diff --git a/MyCapytain/resources/texts/local/capitains/cts.py b/MyCapytain/resources/texts/local/capitains/cts.py
index a651c96..d354254 100644
--- a/MyCapytain/resources/texts/local/capitains/cts.py
+++ b/MyCapytain/resources/texts/local/capitains/cts.py
@@ -306,6 +306,7 @@ class _SharedMethods(TeiResource):
         :param kwargs: Named arguments
         :return:
         """
+        kwargs.setdefault("with_tail", False)
         return etree.tostring(self.resource, *args, **kwargs)
 
 
-- 
2.43.0


From 5087ae0aa431a12f96261c9c6fff2abe0a796674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:27 +0000
Subject: [PATCH 19/77] fix: passages accept lists of identifiers as texts do

---
 MyCapytain/resources/texts/local/capitains/cts.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/resources/texts/local/capitains/cts.py b/MyCapytain/resources/texts/local/capitains/cts.py
index d354254..7974697 100644
--- a/MyCapytain/resources/texts/local/capitains/cts.py
+++ b/MyCapytain/resources/texts/local/capitains/cts.py
@@ -385,7 +385,9 @@ class _SimplePassage(_SharedMethods, PrototypeCtsPassage):
         :param subreference:
         :return:
         """
-        if not isinstance(subreference, CtsReference):
+        if isinstance(subreference, list):
+            subreference = CtsReference(".".join(subreference))
+        elif not isinstance(subreference, CtsReference):
             subreference = CtsReference(subreference)
         return self.textObject.getTextualNode(subreference)
 
@@ -708,7 +710,9 @@ class CapitainsCtsPassage(_SharedMethods, PrototypeCtsPassage):
             return self.getTextualNode(subreference=self.prevId)
 
     def getTextualNode(self, subreference=None, *args, **kwargs):
-        if not isinstance(subreference, CtsReference):
+        if isinstance(subreference, list):
+            subreference = CtsReference(".".join(subreference))
+        elif not isinstance(subreference, CtsReference):
             subreference = CtsReference(subreference)
         X = super(CapitainsCtsPassage, self).getTextualNode(subreference=subreference)
         X._text = self._text
-- 
2.43.0


From da975b1c3aaa207d3d54f67b610d9cd5d03f3679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:27 +0000
Subject: [PATCH 20/77] fix: list the references of ranges starting and ending
 with the same passage

---
 MyCapytain/resources/texts/local/capitains/cts.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/MyCapytain/resources/texts/local/capitains/cts.py b/MyCapytain/resources/texts/local/capitains/cts.py
index 7974697..3df7ebe 100644
--- a/MyCapytain/resources/texts/local/capitains/cts.py
+++ b/MyCapytain/resources/texts/local/capitains/cts.py
@@ -203,14 +203,11 @@ class _SharedMethods(TeiResource):
 
                     common = []
 
-                    for index, part in enumerate(reference.start.list):
-                        if index < reference.end.depth:
-                            if part == reference.end.list[index]:
-                                common.append(part)
-                            else:
-                                break
-                        else:
+                    # What contains both bounds, which are not part of it themselves
+                    for part_start, part_end in zip(reference.start.list[:-1], reference.end.list[:-1]):
+                        if part_start != part_end:
                             break
+                        common.append(part_start)
 
                     passages = [common]
                     depth = len(common)
-- 
2.43.0


From 3b6f993ba01ab5818c78d63f88f4c107b047ccfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:27 +0000
Subject: [PATCH 21/77] fix: nested export of passages

---
 MyCapytain/resources/texts/base/tei.py            |  9 ++++++++-
 MyCapytain/resources/texts/local/capitains/cts.py | 15 +++++++++++++++
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/MyCapytain/resources/texts/base/tei.py b/MyCapytain/resources/texts/base/tei.py
index 1b133e8..5d71227 100644
--- a/MyCapytain/resources/texts/base/tei.py
+++ b/MyCapytain/resources/texts/base/tei.py
@@ -105,7 +105,7 @@ class TeiResource(InteractiveTextualNode):
 
         elif output == Mimetypes.PYTHON.NestedDict:
             # Exports the whole resource into a NestedDict
-            reffs = self.getReffs(level=len(self.citation))
+            reffs = self._leafReffs()
             text = nested_ordered_dictionary()
             for reff in reffs:
                 _r = str(reff).split(".")  # Only works for non range of course
@@ -132,6 +132,13 @@ class TeiResource(InteractiveTextualNode):
                 )
             )
 
+    def _leafReffs(self):
+        """ References of the deepest level found in the resource, used by nested exports
+
+        :return: References of the deepest level
+        """
+        return self.getReffs(level=len(self.citation))
+
     @property
     def xml(self):
         """ XML Representation of the CapitainsCtsPassage
diff --git a/MyCapytain/resources/texts/local/capitains/cts.py b/MyCapytain/resources/texts/local/capitains/cts.py
index 3df7ebe..cacf816 100644
--- a/MyCapytain/resources/texts/local/capitains/cts.py
+++ b/MyCapytain/resources/texts/local/capitains/cts.py
@@ -284,6 +284,21 @@ class _SharedMethods(TeiResource):
         )
         return references
 
+    def _leafReffs(self):
+        """ References of the deepest level found in the text or passage, used by nested exports
+
+        :return: References of the deepest level
+        """
+        depth = len(self.citation.root)
+        reference = getattr(self, "reference", None)
+        if not reference:
+            return self.textObject.getReffs(level=depth)
+        elif reference.depth < depth:
+            return self.textObject.getReffs(level=depth, subreference=reference)
+        elif reference.is_range():
+            return self.textObject.getReffs(level=0, subreference=reference)
+        return [reference]
+
     def xpath(self, *args, **kwargs):
         """ Perform XPath on the passage XML
 
-- 
2.43.0


From 5667015d866d2b4eb96233969515918b21eb21cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:32 +0000
Subject: [PATCH 22/77] fix: deleting a member keeps the metadata of the
 collection asked

---
 MyCapytain/resources/prototypes/metadata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/resources/prototypes/metadata.py b/MyCapytain/resources/prototypes/metadata.py
index 7209e90..eefdffd 100644
--- a/MyCapytain/resources/prototypes/metadata.py
+++ b/MyCapytain/resources/prototypes/metadata.py
@@ -231,8 +231,8 @@ class Collection(Exportable):
         # Delete the graph Item
         self.graph.remove((item.asNode(), None, None))
         self.graph.remove((None, None, item.asNode()))
-        self.metadata.remove()
-        self.metadata.unlink()
+        item.metadata.remove()
+        item.metadata.unlink()
         # Delete the Python item
         if len(item.parents) > 0:
             del item.parents[0].children[item.id]
-- 
2.43.0


From 234240d742000c91f678099c3378b3453492edd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:46 +0000
Subject: [PATCH 23/77] fix: look up metadata by language among values without
 language

---
 MyCapytain/common/metadata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/common/metadata.py b/MyCapytain/common/metadata.py
index 082e1c2..dfcd54e 100644
--- a/MyCapytain/common/metadata.py
+++ b/MyCapytain/common/metadata.py
@@ -87,7 +87,7 @@ class Metadata(Exportable):
         """
         if lang is not None:
             for o in self.graph.objects(self.asNode(), key):
-                if o.language == lang:
+                if getattr(o, "language", None) == lang:
                     yield o
         else:
             for o in self.graph.objects(self.asNode(), key):
@@ -107,7 +107,7 @@ class Metadata(Exportable):
             default = None
             for o in self.graph.objects(self.asNode(), key):
                 default = o
-                if o.language == lang:
+                if getattr(o, "language", None) == lang:
                     return o
             return default
         else:
-- 
2.43.0


From 886262bbbb5381db0b25fb72a84d4382dddfcd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:46 +0000
Subject: [PATCH 24/77] fix: get_cts_property in a language when nothing is
 stored

---
 MyCapytain/resources/prototypes/cts/inventory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/resources/prototypes/cts/inventory.py b/MyCapytain/resources/prototypes/cts/inventory.py
index d8003e4..4eead7a 100644
--- a/MyCapytain/resources/prototypes/cts/inventory.py
+++ b/MyCapytain/resources/prototypes/cts/inventory.py
@@ -80,7 +80,7 @@ class PrototypeCtsCollection(Collection):
         if lang is not None:
             if lang in x:
                 return x[lang]
-            return next(iter(x.values()))
+            return next(iter(x.values()), None)
         return x
 
     def set_cts_property(self, prop, value, lang=None):
-- 
2.43.0


From c95526a5e7a1cdbfc5f49098d03aa69e91faf182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:46 +0000
Subject: [PATCH 25/77] fix: creator and title of CTS texts

---
 MyCapytain/resources/prototypes/cts/inventory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/resources/prototypes/cts/inventory.py b/MyCapytain/resources/prototypes/cts/inventory.py
index 4eead7a..01cf77a 100644
--- a/MyCapytain/resources/prototypes/cts/inventory.py
+++ b/MyCapytain/resources/prototypes/cts/inventory.py
@@ -346,7 +346,7 @@ class CtsTextMetadata(ResourceCollection, PrototypeCtsCollection):
         :return: Creator string representation
         :rtype: Literal
         """
-        return self.parent.parent.metadata.get_label(lang=lang)
+        return self.parent.parent.get_label(lang=lang)
 
     def get_title(self, lang=None):
         """ Get the DC Title of the object
@@ -355,7 +355,7 @@ class CtsTextMetadata(ResourceCollection, PrototypeCtsCollection):
         :return: Title string representation
         :rtype: Literal
         """
-        return self.parent.metadata.get_label(lang=lang)
+        return self.parent.get_label(lang=lang)
 
     def get_description(self, lang=None):
         """ Get the DC description of the object
-- 
2.43.0


From 168e577fa18505d8b1c75fdd8babe835f363ec04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:44 +0000
Subject: [PATCH 26/77] fix: restricting a metadata export leaves the
 restriction as it was given

---
 MyCapytain/common/metadata.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/MyCapytain/common/metadata.py b/MyCapytain/common/metadata.py
index dfcd54e..0522f4f 100644
--- a/MyCapytain/common/metadata.py
+++ b/MyCapytain/common/metadata.py
@@ -166,13 +166,12 @@ class Metadata(Exportable):
         graph.namespace_manager = get_graph().namespace_manager
 
         if only is not None:
-            _only = only
             only = [str(s) for s in only]
+            _only = []
             for predicate in set(self.graph.predicates(subject=self.asNode())):
-                if str(predicate) not in only:
-                    prefix, namespace, name = self.graph.compute_qname(predicate)
-                    if str(namespace) in only:
-                        _only.append(predicate)
+                prefix, namespace, name = self.graph.compute_qname(predicate)
+                if str(predicate) in only or str(namespace) in only:
+                    _only.append(predicate)
             for predicate, obj in self.graph[self.asNode()]:
                 if predicate in _only:
                     graph.add((self.asNode(), predicate, obj))
-- 
2.43.0


From 458a8c4f0a17314e17b007c3056889295a957471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:32 +0000
Subject: [PATCH 27/77] fix: export URIs among metadata values to JSON

---
 MyCapytain/common/metadata.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/MyCapytain/common/metadata.py b/MyCapytain/common/metadata.py
index 0522f4f..beca8d3 100644
--- a/MyCapytain/common/metadata.py
+++ b/MyCapytain/common/metadata.py
@@ -195,13 +195,15 @@ class Metadata(Exportable):
                 predicate = str(predicate)
                 if predicate not in out:
                     out[predicate] = {}
-                if isinstance(object, Literal):
-                    if object.language in out[predicate]:
-                        if isinstance(out[predicate][object.language], str):
-                            out[predicate][object.language] = [out[predicate][object.language]]
-                        out[predicate][object.language].append(object.title())
-                    else:
-                        out[predicate][object.language] = object.title()
+                # Only literals have a language
+                language = getattr(object, "language", None)
+                value = object.title() if isinstance(object, Literal) else str(object)
+                if language in out[predicate]:
+                    if isinstance(out[predicate][language], str):
+                        out[predicate][language] = [out[predicate][language]]
+                    out[predicate][language].append(value)
+                else:
+                    out[predicate][language] = value
             del graph
             return out
 
-- 
2.43.0


From d5236c12acb09314a0573e0fd6ec280974e317ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:46 +0000
Subject: [PATCH 28/77] fix: keep empty titles, labels and descriptions of CTS
 inventories empty

---
 MyCapytain/resources/collections/cts.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/MyCapytain/resources/collections/cts.py b/MyCapytain/resources/collections/cts.py
index 0b19ef7..d13d32a 100644
--- a/MyCapytain/resources/collections/cts.py
+++ b/MyCapytain/resources/collections/cts.py
@@ -165,12 +165,12 @@ class XmlCtsTextMetadata(cts.CtsTextMetadata):
         for child in xml.xpath("ti:description", namespaces=XPATH_NAMESPACES):
             lg = child.get("{http://www.w3.org/XML/1998/namespace}lang")
             if lg is not None:
-                obj.set_cts_property("description", child.text, lg)
+                obj.set_cts_property("description", child.text or "", lg)
 
         for child in xml.xpath("ti:label", namespaces=XPATH_NAMESPACES):
             lg = child.get("{http://www.w3.org/XML/1998/namespace}lang")
             if lg is not None:
-                obj.set_cts_property("label", child.text, lg)
+                obj.set_cts_property("label", child.text or "", lg)
 
         obj.citation = cls.CLASS_CITATION.ingest(xml, obj.citation, "ti:online/ti:citationMapping/ti:citation")
 
@@ -270,7 +270,7 @@ class XmlCtsWorkMetadata(cts.CtsWorkMetadata):
         for child in xml.xpath("ti:title", namespaces=XPATH_NAMESPACES):
             lg = child.get("{http://www.w3.org/XML/1998/namespace}lang")
             if lg is not None:
-                o.set_cts_property("title", child.text, lg)
+                o.set_cts_property("title", child.text or "", lg)
 
         # Parse children
         children = []
@@ -312,7 +312,7 @@ class XmlCtsTextgroupMetadata(cts.CtsTextgroupMetadata):
         for child in xml.xpath("ti:groupname", namespaces=XPATH_NAMESPACES):
             lg = child.get("{http://www.w3.org/XML/1998/namespace}lang")
             if lg is not None:
-                o.set_cts_property("groupname", child.text, lg)
+                o.set_cts_property("groupname", child.text or "", lg)
 
         # Parse Works
         _xpathDict(xml=xml, xpath='ti:work', cls=cls.CLASS_WORK, parent=o)
-- 
2.43.0


From b74d31deec5f7636fb27cc55c836f911c4f68693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:46 +0000
Subject: [PATCH 29/77] fix: keep the text of structured metadata values which
 look like numbers or booleans

---
 MyCapytain/resources/collections/cts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/resources/collections/cts.py b/MyCapytain/resources/collections/cts.py
index d13d32a..b0b553f 100644
--- a/MyCapytain/resources/collections/cts.py
+++ b/MyCapytain/resources/collections/cts.py
@@ -111,7 +111,7 @@ def _parse_structured_metadata(obj, xml):
         if "{" in tag:
             ns, tag = tuple(tag.split("}"))
             tag = URIRef(ns[1:]+tag)
-            s_m = str(metadata)
+            s_m = metadata.text or ""
             if s_m.startswith("urn:") or s_m.startswith("http:") or s_m.startswith("https:") or s_m.startswith("hdl:"):
                 obj.metadata.add(
                     tag,
-- 
2.43.0


From 8f9814390aec07296d26418e8509db86a92dbf5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:23 +0000
Subject: [PATCH 30/77] fix: export the datatype of metadata as rdf:datatype,
 which the parser reads

---
 MyCapytain/common/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/common/metadata.py b/MyCapytain/common/metadata.py
index beca8d3..03b31c8 100644
--- a/MyCapytain/common/metadata.py
+++ b/MyCapytain/common/metadata.py
@@ -224,7 +224,7 @@ class Metadata(Exportable):
                 if hasattr(obj, "language") and obj.language is not None:
                     kwargs["xml:lang"] = obj.language
                 if hasattr(obj, "datatype") and obj.datatype is not None:
-                    kwargs["rdf:type"] = obj.datatype
+                    kwargs["rdf:datatype"] = obj.datatype
                 strings.append(make_xml_node(graph, pred, text=obj, attributes=kwargs, complete=True))
             del graph
             return "\n".join(strings)
-- 
2.43.0


From 8bfcca43c1dc9a4bafca1afed6c9419869c56f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:51 +0000
Subject: [PATCH 31/77] fix: works, texts and labels without a language no
 longer have the language None

---
 MyCapytain/common/utils/xml.py                   | 2 ++
 MyCapytain/resources/prototypes/cts/inventory.py | 6 ++++--
 MyCapytain/resources/prototypes/metadata.py      | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/MyCapytain/common/utils/xml.py b/MyCapytain/common/utils/xml.py
index d215854..7096bf2 100644
--- a/MyCapytain/common/utils/xml.py
+++ b/MyCapytain/common/utils/xml.py
@@ -46,6 +46,7 @@ def make_xml_node(graph, name, close=False, attributes=None, text="", complete=F
                     [
                         "{}=\"{}\"".format(attr_name, escape(str(attr_value), {"\"": "&quot;"}))
                         for attr_name, attr_value in attributes.items()
+                        if attr_value is not None
                     ]
                 ),
                 escape(text),
@@ -61,6 +62,7 @@ def make_xml_node(graph, name, close=False, attributes=None, text="", complete=F
                 [
                     "{}=\"{}\"".format(attr_name, escape(str(attr_value), {"\"": "&quot;"}))
                     for attr_name, attr_value in attributes.items()
+                    if attr_value is not None
                 ]
             )
         )
diff --git a/MyCapytain/resources/prototypes/cts/inventory.py b/MyCapytain/resources/prototypes/cts/inventory.py
index 01cf77a..efd5f61 100644
--- a/MyCapytain/resources/prototypes/cts/inventory.py
+++ b/MyCapytain/resources/prototypes/cts/inventory.py
@@ -217,7 +217,7 @@ class CtsTextMetadata(ResourceCollection, PrototypeCtsCollection):
 
         if parent is not None:
             self.parent = parent
-            if lang is None:
+            if lang is None and self.parent.lang is not None:
                 self.lang = self.parent.lang
 
     @property
@@ -463,7 +463,9 @@ class CtsWorkMetadata(PrototypeCtsCollection):
 
         :return: List of available languages
         """
-        return str(self.graph.value(self.asNode(), DC.language))
+        lang = self.graph.value(self.asNode(), DC.language)
+        if lang is not None:
+            return str(lang)
 
     @lang.setter
     def lang(self, lang):
diff --git a/MyCapytain/resources/prototypes/metadata.py b/MyCapytain/resources/prototypes/metadata.py
index eefdffd..28a7436 100644
--- a/MyCapytain/resources/prototypes/metadata.py
+++ b/MyCapytain/resources/prototypes/metadata.py
@@ -447,7 +447,9 @@ class ResourceCollection(Collection):
 
         :return: List of available languages
         """
-        return str(self.graph.value(self.asNode(), DC.language))
+        lang = self.graph.value(self.asNode(), DC.language)
+        if lang is not None:
+            return str(lang)
 
     @lang.setter
     def lang(self, lang):
-- 
2.43.0


From 3dd721c50ae6826937db53478257f024fe43bc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:05 +0000
Subject: [PATCH 32/77] fix: read the titles, labels and descriptions without a
 language which inventories may hold and export

---
 MyCapytain/resources/collections/cts.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/MyCapytain/resources/collections/cts.py b/MyCapytain/resources/collections/cts.py
index b0b553f..88365e3 100644
--- a/MyCapytain/resources/collections/cts.py
+++ b/MyCapytain/resources/collections/cts.py
@@ -164,13 +164,11 @@ class XmlCtsTextMetadata(cts.CtsTextMetadata):
 
         for child in xml.xpath("ti:description", namespaces=XPATH_NAMESPACES):
             lg = child.get("{http://www.w3.org/XML/1998/namespace}lang")
-            if lg is not None:
-                obj.set_cts_property("description", child.text or "", lg)
+            obj.set_cts_property("description", child.text or "", lg)
 
         for child in xml.xpath("ti:label", namespaces=XPATH_NAMESPACES):
             lg = child.get("{http://www.w3.org/XML/1998/namespace}lang")
-            if lg is not None:
-                obj.set_cts_property("label", child.text or "", lg)
+            obj.set_cts_property("label", child.text or "", lg)
 
         obj.citation = cls.CLASS_CITATION.ingest(xml, obj.citation, "ti:online/ti:citationMapping/ti:citation")
 
@@ -269,8 +267,7 @@ class XmlCtsWorkMetadata(cts.CtsWorkMetadata):
 
         for child in xml.xpath("ti:title", namespaces=XPATH_NAMESPACES):
             lg = child.get("{http://www.w3.org/XML/1998/namespace}lang")
-            if lg is not None:
-                o.set_cts_property("title", child.text or "", lg)
+            o.set_cts_property("title", child.text or "", lg)
 
         # Parse children
         children = []
@@ -311,8 +308,7 @@ class XmlCtsTextgroupMetadata(cts.CtsTextgroupMetadata):
 
         for child in xml.xpath("ti:groupname", namespaces=XPATH_NAMESPACES):
             lg = child.get("{http://www.w3.org/XML/1998/namespace}lang")
-            if lg is not None:
-                o.set_cts_property("groupname", child.text or "", lg)
+            o.set_cts_property("groupname", child.text or "", lg)
 
         # Parse Works
         _xpathDict(xml=xml, xpath='ti:work', cls=cls.CLASS_WORK, parent=o)
-- 
2.43.0


From 9c9f48df7d6bda91953ca13ac6b8145be0a73365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:39 +0000
Subject: [PATCH 33/77] fix: declare the namespace of CTS inventories which
 hold no label nor title

---
 MyCapytain/resources/prototypes/metadata.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/MyCapytain/resources/prototypes/metadata.py b/MyCapytain/resources/prototypes/metadata.py
index 28a7436..126880b 100644
--- a/MyCapytain/resources/prototypes/metadata.py
+++ b/MyCapytain/resources/prototypes/metadata.py
@@ -286,7 +286,8 @@ class Collection(Exportable):
         """
         nm = self.graph.namespace_manager
         bindings = {}
-        for predicate in set(self.graph.predicates()):
+        # The nodes are in the CTS namespace, even if none of the predicates is
+        for predicate in set(self.graph.predicates()) | {self.TYPE_URI}:
             prefix, namespace, name = nm.compute_qname(predicate)
             if prefix != "":
                 bindings["xmlns:" + prefix] = str(URIRef(namespace))#[:-1]
-- 
2.43.0


From cc3d23236cd9dd27d488f18c20d987ac3007177d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:27 +0000
Subject: [PATCH 34/77] fix: parse the parents of a DTS collection (a list was
 added to a set)

---
 MyCapytain/resources/collections/dts/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/resources/collections/dts/_base.py b/MyCapytain/resources/collections/dts/_base.py
index 91af7fe..e4ab733 100644
--- a/MyCapytain/resources/collections/dts/_base.py
+++ b/MyCapytain/resources/collections/dts/_base.py
@@ -111,7 +111,7 @@ class DtsCollection(Collection):
                 for coll in members
             })
         else:
-            self.parents.add(members)
+            self.parents.update(members)
 
     def _parse_metadata(self, data: dict):
 
-- 
2.43.0


From 3020d9cfd61cc3dc5299da0a64e9142fcb86efe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:27 +0000
Subject: [PATCH 35/77] fix: parse metadata of DTS collections which are links
 ({"@id": ...}), as exported

---
 MyCapytain/common/utils/_json_ld.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/MyCapytain/common/utils/_json_ld.py b/MyCapytain/common/utils/_json_ld.py
index ffcdeb6..1fb4200 100644
--- a/MyCapytain/common/utils/_json_ld.py
+++ b/MyCapytain/common/utils/_json_ld.py
@@ -22,6 +22,8 @@ def literal_to_dict(value):
 def dict_to_literal(dict_container: dict):
     """ Transforms a JSON+LD PyLD dictionary into
     an RDFLib object"""
+    if "@id" in dict_container:
+        return URIRef(dict_container["@id"]),
     if isinstance(dict_container["@value"], int):
         return dict_container["@value"],
     else:
-- 
2.43.0


From 90f216ecb3ceddc972297f501aafc91d3283d3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:51 +0000
Subject: [PATCH 36/77] fix: metadata do not declare an RDFa export, which
 returned None

---
 MyCapytain/common/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/common/metadata.py b/MyCapytain/common/metadata.py
index 03b31c8..7cde21e 100644
--- a/MyCapytain/common/metadata.py
+++ b/MyCapytain/common/metadata.py
@@ -29,7 +29,7 @@ class Metadata(Exportable):
     :cvar DEFAULT_EXPORT: Default export (CTS XML Inventory)
     :cvar STORE: RDF Store
     """
-    EXPORT_TO = [Mimetypes.JSON.Std, Mimetypes.XML.RDF, Mimetypes.XML.RDFa, Mimetypes.JSON.LD,
+    EXPORT_TO = [Mimetypes.JSON.Std, Mimetypes.XML.RDF, Mimetypes.JSON.LD,
                  Mimetypes.XML.CapiTainS.CTS]
     DEFAULT_EXPORT = Mimetypes.JSON.Std
     
-- 
2.43.0


From e26ee45250d99e5ac3d13501d8f66fff78d96879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:51 +0000
Subject: [PATCH 37/77] fix: export inventory collections to CapiTainS CTS,
 which they declare

---
 MyCapytain/resources/prototypes/cts/inventory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/resources/prototypes/cts/inventory.py b/MyCapytain/resources/prototypes/cts/inventory.py
index efd5f61..f5ca09b 100644
--- a/MyCapytain/resources/prototypes/cts/inventory.py
+++ b/MyCapytain/resources/prototypes/cts/inventory.py
@@ -730,7 +730,7 @@ class CtsTextInventoryCollection(PrototypeCtsCollection):
         :param namespaces: List namespaces in main node
         :returns: Desired output formated resource
         """
-        if output == Mimetypes.XML.CTS:
+        if output == Mimetypes.XML.CTS or output == Mimetypes.XML.CapiTainS.CTS:
             attrs = {}
             if self.id:
                 attrs["tiid"] = self.id
@@ -741,7 +741,7 @@ class CtsTextInventoryCollection(PrototypeCtsCollection):
                 members=[
                     m for inv in self.members for m in inv.members
                 ],
-                output=Mimetypes.XML.CTS
+                output=output
             )
         elif output == Mimetypes.JSON.DTS.Std:
             if len(self.members) > 1:
-- 
2.43.0


From 789e15e84fb81f6c436583c92813bb74bb15f632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:51 +0000
Subject: [PATCH 38/77] fix: DTS export of an empty inventory collection

---
 MyCapytain/resources/prototypes/cts/inventory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/resources/prototypes/cts/inventory.py b/MyCapytain/resources/prototypes/cts/inventory.py
index f5ca09b..bf64e2e 100644
--- a/MyCapytain/resources/prototypes/cts/inventory.py
+++ b/MyCapytain/resources/prototypes/cts/inventory.py
@@ -744,7 +744,7 @@ class CtsTextInventoryCollection(PrototypeCtsCollection):
                 output=output
             )
         elif output == Mimetypes.JSON.DTS.Std:
-            if len(self.members) > 1:
+            if len(self.members) != 1:
                 return Collection.__export__(self, output=output)
             else:
                 return self.members[0].export(output=output)
-- 
2.43.0


From 017b3c08dc97912f5df71282c6b688947f96844d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:28 +0000
Subject: [PATCH 39/77] fix: JSON-LD and RDF/XML exports of collections
 (namespaces were read from a namespace manager as from a dict)

---
 MyCapytain/resources/prototypes/metadata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/resources/prototypes/metadata.py b/MyCapytain/resources/prototypes/metadata.py
index 126880b..82f722a 100644
--- a/MyCapytain/resources/prototypes/metadata.py
+++ b/MyCapytain/resources/prototypes/metadata.py
@@ -350,7 +350,7 @@ class Collection(Exportable):
                 nsm["dct"] = DCTERMS
 
             else:
-                nsm = namespace_manager.namespaces()
+                nsm = dict(namespace_manager.namespaces())
 
             # Set-up a derived graph
             store = Subgraph(nsm)
@@ -433,7 +433,7 @@ class Collection(Exportable):
                 or output == Mimetypes.XML.RDF:
 
             # We create a temp graph
-            store = Subgraph(get_graph().namespace_manager)
+            store = Subgraph(dict(get_graph().namespace_manager.namespaces()))
             store.graphiter(self.graph, self.asNode(), ascendants=1, descendants=-1)
 
             o = store.serialize(format=RDFLIB_MAPPING[output], auto_compact=True, indent="")
-- 
2.43.0


From 936640f0dac7eba90df4b98e7752f3859fafa5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:47 +0000
Subject: [PATCH 40/77] fix: a work URN given to the local resolver no longer
 finds the texts of works sharing its beginning

---
 MyCapytain/resolvers/cts/local.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/resolvers/cts/local.py b/MyCapytain/resolvers/cts/local.py
index 0b22428..095f606 100644
--- a/MyCapytain/resolvers/cts/local.py
+++ b/MyCapytain/resolvers/cts/local.py
@@ -326,7 +326,7 @@ class CtsCapitainsLocalResolver(Resolver):
                 urn = [
                     t.id
                     for t in self.texts
-                    if t.id.startswith(str(urn)) and isinstance(t, CtsEditionMetadata)
+                    if t.urn.upTo(URN.WORK) == urn and isinstance(t, CtsEditionMetadata)
                 ]
                 if len(urn) > 0:
                     urn = URN(urn[0])
-- 
2.43.0


From 583d4a9248aca72d1e4eb45a9ff1a319ee29316a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:01 +0000
Subject: [PATCH 41/77] fix: URN objects given to the metadata lookups of the
 local resolver match

---
 MyCapytain/resolvers/cts/local.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/MyCapytain/resolvers/cts/local.py b/MyCapytain/resolvers/cts/local.py
index 095f606..7ea416a 100644
--- a/MyCapytain/resolvers/cts/local.py
+++ b/MyCapytain/resolvers/cts/local.py
@@ -381,7 +381,7 @@ class CtsCapitainsLocalResolver(Resolver):
             for text in self.texts
             if
             (lang is None or (lang is not None and lang == text.lang)) and
-            (urn is None or (urn is not None and text.urn.upTo(__PART) == urn)) and
+            (urn is None or (urn is not None and text.urn.upTo(__PART) == str(urn))) and
             (text.citation is not None) and
             (
                 category not in ["edition", "translation", "commentary"] or
@@ -432,6 +432,8 @@ class CtsCapitainsLocalResolver(Resolver):
         :type filters: dict
         :return: Collection
         """
+        if isinstance(objectId, URN):
+            objectId = str(objectId)
         if objectId is None:
             return self.inventory
         elif objectId in self.inventory.children.keys():
-- 
2.43.0


From 556668d05b960308247c8b82a64fc9bbe49daae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:12 +0000
Subject: [PATCH 42/77] fix: page numbers outside the list never yield an empty
 or negative window

---
 MyCapytain/resolvers/cts/local.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/MyCapytain/resolvers/cts/local.py b/MyCapytain/resolvers/cts/local.py
index 7ea416a..ac0da2e 100644
--- a/MyCapytain/resolvers/cts/local.py
+++ b/MyCapytain/resolvers/cts/local.py
@@ -403,8 +403,8 @@ class CtsCapitainsLocalResolver(Resolver):
         :param length: Length of the list to paginate
         :return: (Start Index, End Index, Page Number, Item Count)
         """
+        page = max(page or CtsCapitainsLocalResolver.DEFAULT_PAGE, 1)
         realpage = page
-        page = page or CtsCapitainsLocalResolver.DEFAULT_PAGE
         limit = limit or CtsCapitainsLocalResolver.PER_PAGE[1]
 
         if limit < CtsCapitainsLocalResolver.PER_PAGE[0] or limit > CtsCapitainsLocalResolver.PER_PAGE[2]:
@@ -412,8 +412,8 @@ class CtsCapitainsLocalResolver(Resolver):
 
         page = (page - 1) * limit
 
-        if page > length:
-            realpage = int(ceil(length / limit))
+        if page >= length:
+            realpage = max(int(ceil(length / limit)), 1)
             page = limit * (realpage - 1)
             count = length - 1
         elif limit - 1 + page < length:
-- 
2.43.0


From a9ad7ab4dc1943f9f5545524121c7cc863ed31fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:20 +0000
Subject: [PATCH 43/77] fix: metadata files which cannot be parsed are skipped
 when RAISE_ON_GENERIC_PARSING_ERROR is off

---
 MyCapytain/resolvers/cts/local.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/MyCapytain/resolvers/cts/local.py b/MyCapytain/resolvers/cts/local.py
index ac0da2e..24150c8 100644
--- a/MyCapytain/resolvers/cts/local.py
+++ b/MyCapytain/resolvers/cts/local.py
@@ -286,15 +286,19 @@ class CtsCapitainsLocalResolver(Resolver):
         for folder in resource:
             cts_files = glob("{base_folder}/data/*/__cts__.xml".format(base_folder=folder))
             for cts_file in cts_files:
-                textgroup, cts_file = self._parse_textgroup_wrapper(cts_file)
-                textgroups.append((textgroup, cts_file))
+                parsed = self._parse_textgroup_wrapper(cts_file)
+                # If parsing errors are not raised, what could not be parsed is skipped
+                if parsed is not None:
+                    textgroups.append(parsed)
 
         for textgroup, cts_textgroup_file in textgroups:
             cts_work_files = glob("{parent}/*/__cts__.xml".format(parent=os.path.dirname(cts_textgroup_file)))
 
             for cts_work_file in cts_work_files:
-                _, parsed_texts, directory = self._parse_work_wrapper(cts_work_file, textgroup)
-                texts.extend([(text, directory) for text in parsed_texts])
+                parsed = self._parse_work_wrapper(cts_work_file, textgroup)
+                if parsed is not None:
+                    _, parsed_texts, directory = parsed
+                    texts.extend([(text, directory) for text in parsed_texts])
 
         for text, directory in texts:
             # If text_id is not none, the text parsing errored
-- 
2.43.0


From 9da8687edbb8fe2864cd98d471a2469d894e2165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:11 +0000
Subject: [PATCH 44/77] fix: page of a pagination link is read from the query
 of its URI

---
 MyCapytain/common/utils/_http.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/MyCapytain/common/utils/_http.py b/MyCapytain/common/utils/_http.py
index 68d212f..547f54c 100644
--- a/MyCapytain/common/utils/_http.py
+++ b/MyCapytain/common/utils/_http.py
@@ -16,7 +16,7 @@ def parse_pagination(headers):
     :rtype: _Navigation
     """
     links = {
-        link.rel: parse_qs(link.href).get("page", None)
+        link.rel: parse_qs(urlparse(link.href).query).get("page", [None])
         for link in link_header.parse(headers.get("Link", "")).links
     }
     return _Navigation(
@@ -38,8 +38,8 @@ def parse_uri(uri, endpoint_uri):
     :return: Parsed route
     :rtype: _Route
     """
-    temp_parse = urlparse(uri)
+    temp_parse = urlparse(urljoin(endpoint_uri, uri))
     return _Route(
-        urljoin(endpoint_uri, temp_parse.path),
-        parse_qs(temp_parse.query)
+        temp_parse._replace(query="", fragment="").geturl(),
+        parse_qs(temp_parse.query, keep_blank_values=True)
     )
-- 
2.43.0


From 640bc95ce4855708967330bb14e178c0bbb558eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:19 +0000
Subject: [PATCH 45/77] fix: only the leading prefix is expanded by
 expand_namespace

---
 MyCapytain/common/utils/_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/common/utils/_graph.py b/MyCapytain/common/utils/_graph.py
index fe043b0..61b995e 100644
--- a/MyCapytain/common/utils/_graph.py
+++ b/MyCapytain/common/utils/_graph.py
@@ -78,5 +78,5 @@ def expand_namespace(nsmap, string):
     """
     for ns in nsmap:
         if isinstance(string, str) and isinstance(ns, str) and string.startswith(ns+":"):
-            return string.replace(ns+":", nsmap[ns])
+            return nsmap[ns] + string[len(ns)+1:]
     return string
\ No newline at end of file
-- 
2.43.0


From faa51807e9dce0ad2ff54a64758556f2768837fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:19 +0000
Subject: [PATCH 46/77] fix: a tuple is a range and 0 is a reference for the
 DTS retriever

---
 MyCapytain/retrievers/dts/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/MyCapytain/retrievers/dts/__init__.py b/MyCapytain/retrievers/dts/__init__.py
index cf833bf..d190a90 100644
--- a/MyCapytain/retrievers/dts/__init__.py
+++ b/MyCapytain/retrievers/dts/__init__.py
@@ -25,7 +25,9 @@ def _parse_ref_parameters(parameters, ref):
             parameters["start"], parameters["end"] = ref
         else:
             parameters["ref"] = ref.start
-    elif ref:
+    elif isinstance(ref, tuple):
+        parameters["start"], parameters["end"] = ref
+    elif ref is not None and ref != "":
         parameters["ref"] = ref
 
 
-- 
2.43.0


From d15c33d68057b5cfc230aecd426f138acb6b1752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:46 +0000
Subject: [PATCH 47/77] fix: DTS references with different types differ, can be
 hashed, and sets compare with tuples

---
 MyCapytain/common/reference/_dts_1.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/MyCapytain/common/reference/_dts_1.py b/MyCapytain/common/reference/_dts_1.py
index d698343..4ae6c6d 100644
--- a/MyCapytain/common/reference/_dts_1.py
+++ b/MyCapytain/common/reference/_dts_1.py
@@ -37,6 +37,12 @@ class DtsReference(BaseReference):
             isinstance(other, DtsReference) and \
             self.type == other.type
 
+    def __ne__(self, other):
+        return not self == other
+
+    def __hash__(self):
+        return super(DtsReference, self).__hash__()
+
     def __repr__(self):
         return "<DtsReference <{}> [{}]>".format(
             "><".join([str(x) for x in self if x]),
@@ -53,10 +59,16 @@ class DtsReferenceSet(BaseReferenceSet):
 
     def __eq__(self, other):
         return super(DtsReferenceSet, self).__eq__(other) and \
-            self.level == other.level and \
             isinstance(other, DtsReferenceSet) and \
+            self.level == other.level and \
             self.citation == other.citation
 
+    def __ne__(self, other):
+        return not self == other
+
+    def __hash__(self):
+        return super(DtsReferenceSet, self).__hash__()
+
 
 class DtsCitation(BaseCitation):
     def __init__(self, name=None, children=None, root=None):
-- 
2.43.0


From 088852f5a05fd0397dccc6f3e573b22cda4b9477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:46 +0000
Subject: [PATCH 48/77] fix: the page of a hydra next link is its page
 parameter, an answer without data is reported as such

---
 MyCapytain/resolvers/dts/api_v1.py                | 4 ++--
 MyCapytain/resources/collections/dts/_resolver.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/MyCapytain/resolvers/dts/api_v1.py b/MyCapytain/resolvers/dts/api_v1.py
index 1defc8a..3955301 100644
--- a/MyCapytain/resolvers/dts/api_v1.py
+++ b/MyCapytain/resolvers/dts/api_v1.py
@@ -26,7 +26,7 @@ __all__ = [
 ]
 
 _empty = [{"@value": None}]
-_re_page = re.compile("page=(\d+)")
+_re_page = re.compile(r"(?:^|[?&])page=(\d+)")
 
 
 def _parse_ref(ref_dict, default_type: str=None):
@@ -113,7 +113,7 @@ class HttpDtsResolver(Resolver):
             data = expand(data)
             if not len(data):
                 raise PaginationBrowsingError(
-                    "The contacted endpoint seems to not have any data about collection %s " % self.id
+                    "The contacted endpoint seems to not have any data about collection %s " % textId
                 )
             data = data[0]
 
diff --git a/MyCapytain/resources/collections/dts/_resolver.py b/MyCapytain/resources/collections/dts/_resolver.py
index cb07add..65bdafa 100644
--- a/MyCapytain/resources/collections/dts/_resolver.py
+++ b/MyCapytain/resources/collections/dts/_resolver.py
@@ -9,7 +9,7 @@ from ._base import DtsCollection
 
 _hyd = RDF_NAMESPACES.HYDRA
 _empty = [{"@value": None}]
-_re_page = re.compile("page=(\d+)")
+_re_page = re.compile(r"(?:^|[?&])page=(\d+)")
 
 
 class PaginatedProxy:
-- 
2.43.0


From f71aeb979022998b1b120ee83325f0fd5c50e865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:38 +0000
Subject: [PATCH 49/77] fix: the length of a lazily loaded DTS list is that of
 the whole list

---
 MyCapytain/resources/collections/dts/_resolver.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/MyCapytain/resources/collections/dts/_resolver.py b/MyCapytain/resources/collections/dts/_resolver.py
index 65bdafa..7317efa 100644
--- a/MyCapytain/resources/collections/dts/_resolver.py
+++ b/MyCapytain/resources/collections/dts/_resolver.py
@@ -52,6 +52,9 @@ class PaginatedProxy:
     def __iter__(self):
         return iter(self._run())
 
+    def __len__(self):
+        return len(self._run())
+
     def __getitem__(self, item):
         if isinstance(self._proxied, (list, dict, set, tuple)):
             # If it is in, we do not update the object
-- 
2.43.0


From 52179669b79d34f0d1869a824cef17f28759c698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:38 +0000
Subject: [PATCH 50/77] fix: lazily loaded DTS children are complete once their
 own pages are read

---
 MyCapytain/resources/collections/dts/_resolver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/resources/collections/dts/_resolver.py b/MyCapytain/resources/collections/dts/_resolver.py
index 7317efa..f4f1493 100644
--- a/MyCapytain/resources/collections/dts/_resolver.py
+++ b/MyCapytain/resources/collections/dts/_resolver.py
@@ -92,7 +92,7 @@ class HttpResolverDtsCollection(DtsCollection):
             self,
             "_children",
             update_lambda=lambda: self._parse_paginated_members(direction="children"),
-            condition_lambda=lambda: self._parsed["parents"]
+            condition_lambda=lambda: self._parsed["children"]
         )
         self._parents = PaginatedProxy(
             self,
-- 
2.43.0


From daaddff63f2fc207c40d6644c5bb3255ff6460cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:38 +0000
Subject: [PATCH 51/77] fix: a DTS parent known from elsewhere is listed once

---
 MyCapytain/resources/collections/dts/_resolver.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/MyCapytain/resources/collections/dts/_resolver.py b/MyCapytain/resources/collections/dts/_resolver.py
index f4f1493..01c41b7 100644
--- a/MyCapytain/resources/collections/dts/_resolver.py
+++ b/MyCapytain/resources/collections/dts/_resolver.py
@@ -137,12 +137,13 @@ class HttpResolverDtsCollection(DtsCollection):
                     )
                 })
             else:
-                self.parents.update({
-                    o
-                    for o in type(self).parse_member(
-                        obj=data, collection=self, direction=direction, resolver=self._resolver
-                    )
-                })
+                members = type(self).parse_member(
+                    obj=data, collection=self, direction=direction, resolver=self._resolver
+                )
+                # A parent can be known from its own list of children or from an earlier reading of the page
+                known = self._parents._proxied if isinstance(self._parents, PaginatedProxy) else self._parents
+                known = {parent.id for parent in known}
+                self.parents.update({o for o in members if o.id not in known})
             self._last_page_parsed[direction] = page
 
             page = None
-- 
2.43.0


From 82c20a1c451c97b663337eca4b8875ae97e5fdb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:38 +0000
Subject: [PATCH 52/77] fix: retrieving a DTS member's metadata downloads it
 once

---
 MyCapytain/resources/collections/dts/_resolver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/MyCapytain/resources/collections/dts/_resolver.py b/MyCapytain/resources/collections/dts/_resolver.py
index 01c41b7..819bdff 100644
--- a/MyCapytain/resources/collections/dts/_resolver.py
+++ b/MyCapytain/resources/collections/dts/_resolver.py
@@ -185,6 +185,7 @@ class HttpResolverDtsCollection(DtsCollection):
                     "The contacted endpoint seems to not have any data about collection %s " % self.id
                 )
             self._parse_metadata(expand(data)[0])
+            self._parsed["metadata"] = True
         return True
 
     @classmethod
-- 
2.43.0


From 0f1b75f2da41f777b03efe75671d004a6e325d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:48 +0000
Subject: [PATCH 53/77] fix: a remote CTS passage asks for other passages of
 its text, not of itself

---
 MyCapytain/resources/texts/remote/cts.py | 41 ++++++++++++------------
 1 file changed, 20 insertions(+), 21 deletions(-)

diff --git a/MyCapytain/resources/texts/remote/cts.py b/MyCapytain/resources/texts/remote/cts.py
index 3abdd76..d914932 100644
--- a/MyCapytain/resources/texts/remote/cts.py
+++ b/MyCapytain/resources/texts/remote/cts.py
@@ -60,6 +60,23 @@ class _SharedMethod(InteractiveTextualNode):
         """
         return self._retriever
 
+    def _passage_urn(self, reference=None):
+        """ URN of a passage of the text the current object is, or is a passage of
+
+        :param reference: Reference of the passage (The current object itself if not set)
+        :type reference: Union[CtsReference, URN, str, list]
+        :rtype: str
+        """
+        if not reference:
+            return str(self.urn)
+        elif isinstance(reference, list):
+            reference = ".".join(reference)
+
+        reference = str(reference)
+        if ":" in reference:
+            return reference
+        return "{0}:{1}".format(self.urn.upTo(URN.NO_PASSAGE), reference)
+
     def getValidReff(self, level=1, reference=None):
         """ Given a resource, CtsText will compute valid reffs
 
@@ -70,10 +87,7 @@ class _SharedMethod(InteractiveTextualNode):
         :rtype: list(str)
         :returns: List of levels
         """
-        if reference:
-            urn = "{0}:{1}".format(self.urn, reference)
-        else:
-            urn = str(self.urn)
+        urn = self._passage_urn(reference)
 
         if level == -1:
             level = len(self.citation)
@@ -97,19 +111,7 @@ class _SharedMethod(InteractiveTextualNode):
         :returns: Object representing the passage
         :raises: *TypeError* when reference is not a list or a CtsReference
         """
-        if isinstance(subreference, URN):
-            urn = str(subreference)
-        elif isinstance(subreference, CtsReference):
-            urn = "{0}:{1}".format(self.urn, str(subreference))
-        elif isinstance(subreference, str):
-            if ":" in subreference:
-                urn = subreference
-            else:
-                urn = "{0}:{1}".format(self.urn.upTo(URN.NO_PASSAGE), subreference)
-        elif isinstance(subreference, list):
-            urn = "{0}:{1}".format(self.urn, ".".join(subreference))
-        else:
-            urn = str(self.urn)
+        urn = self._passage_urn(subreference)
 
         response = xmlparser(self.retriever.getPassage(urn=urn))
 
@@ -140,10 +142,7 @@ class _SharedMethod(InteractiveTextualNode):
         :returns: Object representing the passage
         :raises: *TypeError* when reference is not a list or a Reference
         """
-        if reference:
-            urn = "{0}:{1}".format(self.urn, reference)
-        else:
-            urn = str(self.urn)
+        urn = self._passage_urn(reference)
 
         response = xmlparser(self.retriever.getPassagePlus(urn=urn))
 
-- 
2.43.0


From ee024db27fefb1cb96c9a738a5464c5d3698142f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:48 +0000
Subject: [PATCH 54/77] fix: titles and labels of a remote CTS text keep their
 language

---
 MyCapytain/resources/texts/remote/cts.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/MyCapytain/resources/texts/remote/cts.py b/MyCapytain/resources/texts/remote/cts.py
index d914932..0d71aa2 100644
--- a/MyCapytain/resources/texts/remote/cts.py
+++ b/MyCapytain/resources/texts/remote/cts.py
@@ -158,22 +158,22 @@ class _SharedMethod(InteractiveTextualNode):
         :type xml: Union[lxml.etree._Element]
         """
         for node in xml.xpath(".//ti:groupname", namespaces=XPATH_NAMESPACES):
-            lang = node.get("xml:lang") or CtsText.DEFAULT_LANG
+            lang = node.get("{http://www.w3.org/XML/1998/namespace}lang") or CtsText.DEFAULT_LANG
             self.metadata.add(RDF_NAMESPACES.CTS.groupname, lang=lang, value=node.text)
             self.set_creator(node.text, lang)
 
         for node in xml.xpath(".//ti:title", namespaces=XPATH_NAMESPACES):
-            lang = node.get("xml:lang") or CtsText.DEFAULT_LANG
+            lang = node.get("{http://www.w3.org/XML/1998/namespace}lang") or CtsText.DEFAULT_LANG
             self.metadata.add(RDF_NAMESPACES.CTS.title, lang=lang, value=node.text)
             self.set_title(node.text, lang)
 
         for node in xml.xpath(".//ti:label", namespaces=XPATH_NAMESPACES):
-            lang = node.get("xml:lang") or CtsText.DEFAULT_LANG
+            lang = node.get("{http://www.w3.org/XML/1998/namespace}lang") or CtsText.DEFAULT_LANG
             self.metadata.add(RDF_NAMESPACES.CTS.label, lang=lang, value=node.text)
             self.set_subject(node.text, lang)
 
         for node in xml.xpath(".//ti:description", namespaces=XPATH_NAMESPACES):
-            lang = node.get("xml:lang") or CtsText.DEFAULT_LANG
+            lang = node.get("{http://www.w3.org/XML/1998/namespace}lang") or CtsText.DEFAULT_LANG
             self.metadata.add(RDF_NAMESPACES.CTS.description, lang=lang, value=node.text)
             self.set_description(node.text, lang)
 
-- 
2.43.0


From dfc457a38b42df02c45798f3964e3f96938f5cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:48 +0000
Subject: [PATCH 55/77] fix: no parent for a top level remote CTS passage, no
 last child for a leaf

---
 MyCapytain/resources/texts/remote/cts.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/resources/texts/remote/cts.py b/MyCapytain/resources/texts/remote/cts.py
index 0d71aa2..65aab53 100644
--- a/MyCapytain/resources/texts/remote/cts.py
+++ b/MyCapytain/resources/texts/remote/cts.py
@@ -266,7 +266,7 @@ class _SharedMethod(InteractiveTextualNode):
         """
         if self._last is False:
             # Request the next urn
-            self._last = self.childIds[-1]
+            self._last = self.childIds[-1] if self.childIds else None
         return self._last
 
     @staticmethod
@@ -424,7 +424,8 @@ class CtsPassage(_SharedMethod, PrototypeCtsPassage, TeiResource):
         :rtype: CtsReference
         :returns: Following passage reference
         """
-        return str(self.urn.reference.parent)
+        if self.urn.reference and self.urn.reference.parent:
+            return str(self.urn.reference.parent)
 
     @property
     def nextId(self):
-- 
2.43.0


From 1575acd213771a1e7ecf9194083c5dbcd81c8b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:05 +0000
Subject: [PATCH 56/77] fix: the siblings of a whole remote CTS text are asked
 with its own URN

---
 MyCapytain/resources/texts/remote/cts.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/MyCapytain/resources/texts/remote/cts.py b/MyCapytain/resources/texts/remote/cts.py
index 65aab53..869d290 100644
--- a/MyCapytain/resources/texts/remote/cts.py
+++ b/MyCapytain/resources/texts/remote/cts.py
@@ -209,13 +209,7 @@ class _SharedMethod(InteractiveTextualNode):
         """
         _prev, _next = _SharedMethod.prevnext(
             self.retriever.getPrevNextUrn(
-                urn="{}:{}".format(
-                    str(
-                        URN(
-                            str(self.urn)).upTo(URN.NO_PASSAGE)
-                    ),
-                    str(reference)
-                )
+                urn=self._passage_urn(reference)
             )
         )
         return _prev, _next
-- 
2.43.0


From be551b7961f48bcba1daded88303d68f684b2375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:18 +0000
Subject: [PATCH 57/77] fix: the parent of a DTS document is the one its Link
 header gives

---
 MyCapytain/resources/texts/remote/dts/_resolver_v1.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/resources/texts/remote/dts/_resolver_v1.py b/MyCapytain/resources/texts/remote/dts/_resolver_v1.py
index 19c466f..d6ad6da 100644
--- a/MyCapytain/resources/texts/remote/dts/_resolver_v1.py
+++ b/MyCapytain/resources/texts/remote/dts/_resolver_v1.py
@@ -96,11 +96,11 @@ class DtsResolverDocument(TeiResource):
             o._next_id = o._dict_to_ref(links.get("next"))
         if links.get("prev"):
             o._prev_id = o._dict_to_ref(links.get("prev"))
-        if links.get("parent"):
+        if links.get("up"):
             o._parent = o._dict_to_ref(links.get("up"))
         if links.get("first"):
             o._first_id = o._dict_to_ref(links.get("first"))
-        if links.get("parent"):
+        if links.get("last"):
             o._last_id = o._dict_to_ref(links.get("last"))
         if links.get("collection"):
             o._collection = o._dict_to_ref(links.get("collection"))
-- 
2.43.0


From 94c4708308326fc1e08c6e055ceab93ba2e58bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:18 +0000
Subject: [PATCH 58/77] fix: references of a DTS document are listed at the
 level asked for

---
 MyCapytain/resources/texts/remote/dts/_resolver_v1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/resources/texts/remote/dts/_resolver_v1.py b/MyCapytain/resources/texts/remote/dts/_resolver_v1.py
index d6ad6da..2a4a63c 100644
--- a/MyCapytain/resources/texts/remote/dts/_resolver_v1.py
+++ b/MyCapytain/resources/texts/remote/dts/_resolver_v1.py
@@ -66,7 +66,7 @@ class DtsResolverDocument(TeiResource):
         return obj
 
     def getReffs(self, level: int=1, subreference: DtsReference=None):
-        return self.resolver.getReffs(textId=self.id, subreference=(subreference or self.reference))
+        return self.resolver.getReffs(textId=self.id, level=level, subreference=(subreference or self.reference))
 
     def _dict_to_ref(self, header_dic):
         ref = header_dic.get("ref", [None])[0]
-- 
2.43.0


From 3dea0e546ace5dc0a50010ba613212d919a828b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:16 +0000
Subject: [PATCH 59/77] fix: extracting a subgraph keeps every triple within
 the limits

---
 MyCapytain/common/utils/_graph.py | 69 +++++++++++++++----------------
 1 file changed, 33 insertions(+), 36 deletions(-)

diff --git a/MyCapytain/common/utils/_graph.py b/MyCapytain/common/utils/_graph.py
index 61b995e..e05e552 100644
--- a/MyCapytain/common/utils/_graph.py
+++ b/MyCapytain/common/utils/_graph.py
@@ -1,5 +1,3 @@
-from collections import defaultdict
-
 from rdflib import Graph, BNode
 from rdflib.namespace import NamespaceManager
 
@@ -15,9 +13,6 @@ class Subgraph(object):
         for prefix, namespace in bindings.items():
             self.graph.namespace_manager.bind(prefix, namespace)
 
-        self.downwards = defaultdict(lambda: True)
-        self.updwards = defaultdict(lambda: True)
-
     def graphiter(self, graph, target, ascendants=0, descendants=1):
         """ Iter on a graph to finds object connected
 
@@ -30,37 +25,39 @@ class Subgraph(object):
         :return:
         """
 
-        asc = 0 + ascendants
-        if asc != 0:
-            asc -= 1
-
-        desc = 0 + descendants
-        if desc != 0:
-            desc -= 1
-
-        t = str(target)
-
-        if descendants != 0 and self.downwards[t] is True:
-            self.downwards[t] = False
-            for pred, obj in graph.predicate_objects(target):
-                if desc == 0 and isinstance(obj, BNode):
-                    continue
-                self.add((target, pred, obj))
-
-                # Retrieve triples about the object
-                if desc != 0 and self.downwards[str(obj)] is True:
-                    self.graphiter(graph, target=obj, ascendants=0, descendants=desc)
-
-        if ascendants != 0 and self.updwards[t] is True:
-            self.updwards[t] = False
-            for s, p in graph.subject_predicates(object=target):
-                if desc == 0 and isinstance(s, BNode):
-                    continue
-                self.add((s, p, target))
-
-                # Retrieve triples about the parent as object
-                if asc != 0 and self.updwards[str(s)] is True:
-                    self.graphiter(graph, target=s, ascendants=asc, descendants=0)
+        # Levels are walked one after the other, so that each node is met where most levels remain
+        level, met, remaining = [target], {target}, descendants
+        while level and remaining != 0:
+            remaining -= 1
+            following = []
+            for node in level:
+                for pred, obj in graph.predicate_objects(node):
+                    if remaining == 0 and isinstance(obj, BNode):
+                        continue
+                    self.add((node, pred, obj))
+
+                    # Retrieve triples about the object
+                    if obj not in met:
+                        met.add(obj)
+                        following.append(obj)
+            level = following
+
+        level, met, remaining = [target], {target}, ascendants
+        blank = descendants not in (0, 1)
+        while level and remaining != 0:
+            remaining -= 1
+            following = []
+            for node in level:
+                for s, p in graph.subject_predicates(object=node):
+                    if not blank and isinstance(s, BNode):
+                        continue
+                    self.add((s, p, node))
+
+                    # Retrieve triples about the parent as object
+                    if s not in met:
+                        met.add(s)
+                        following.append(s)
+            level, blank = following, False
 
     def serialize(self, *args, **kwargs):
         return self.graph.serialize(*args, **kwargs)
-- 
2.43.0


From b8ec1b0bd65d0ff6e3ede1b76e2812df98ad1926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:40 +0000
Subject: [PATCH 60/77] fix: the context of an exported collection declares the
 prefixes of its types

---
 MyCapytain/resources/prototypes/metadata.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/MyCapytain/resources/prototypes/metadata.py b/MyCapytain/resources/prototypes/metadata.py
index 82f722a..3c974fd 100644
--- a/MyCapytain/resources/prototypes/metadata.py
+++ b/MyCapytain/resources/prototypes/metadata.py
@@ -362,7 +362,9 @@ class Collection(Exportable):
 
             ignore_ns_for_bindings = [_ns_cap_str, _ns_hydra_str, _ns_rdf_str, _ns_rdfs_str]
             bindings = {}
-            for predicate in set(graph.predicates()):
+            # The types of the collection and its members are written with their prefix as well
+            types = {obj.type for obj in [self] + self.members}
+            for predicate in set(graph.predicates()) | types:
                 prefix, namespace, name = nsm.compute_qname(predicate)
                 if prefix not in bindings and str(namespace) not in ignore_ns_for_bindings:
                     bindings[prefix] = str(URIRef(namespace))
-- 
2.43.0


From 767192ec23a5505978331c72f92040c3d5d833ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:27 +0000
Subject: [PATCH 61/77] fix: a text found in one directory is not replaced by
 one that errored in another

---
 MyCapytain/resolvers/cts/local.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/MyCapytain/resolvers/cts/local.py b/MyCapytain/resolvers/cts/local.py
index 24150c8..75a258e 100644
--- a/MyCapytain/resolvers/cts/local.py
+++ b/MyCapytain/resolvers/cts/local.py
@@ -300,10 +300,18 @@ class CtsCapitainsLocalResolver(Resolver):
                     _, parsed_texts, directory = parsed
                     texts.extend([(text, directory) for text in parsed_texts])
 
+        valid = set()
         for text, directory in texts:
             # If text_id is not none, the text parsing errored
             if not self._parse_text(text, directory):
                 invalids.append(text)
+            else:
+                valid.add(text.id)
+
+        # A text found in another directory is not replaced by one that errored
+        for text in invalids:
+            if text.id in valid and text.parent.children.get(text.id) is text:
+                del text.parent.children[text.id]
 
         # Dispatching routine
         for textgroup, textgroup_path in textgroups:
-- 
2.43.0


From 288af3f58736b8634b2722af044fdf018a0fa86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:52 +0000
Subject: [PATCH 62/77] fix: a passage which contains no passage has no
 references below it

Listing what is below an existing passage without children raised KeyError (Unknown reference), which stopped walks.
---
 MyCapytain/resources/texts/local/capitains/cts.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/MyCapytain/resources/texts/local/capitains/cts.py b/MyCapytain/resources/texts/local/capitains/cts.py
index cacf816..f762566 100644
--- a/MyCapytain/resources/texts/local/capitains/cts.py
+++ b/MyCapytain/resources/texts/local/capitains/cts.py
@@ -255,6 +255,11 @@ class _SharedMethods(TeiResource):
             nodes.pop(0)
 
             if len(passages) == 0:
+                if reference and (reference.is_range() or xml.xpath(
+                        citations[depth-1].fill(reference.start.list), namespaces=XPATH_NAMESPACES
+                )):
+                    # The passage exists but contains no other one
+                    break
                 msg = "Unknown reference {}".format(reference)
                 raise KeyError(msg)
 
-- 
2.43.0


From 4f8f6794c183f86dab01b4c28322fee451ce135b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:35 +0000
Subject: [PATCH 63/77] fix: text metadata can be set from a collection without
 citation

A collection whose inventory entry has no citation scheme has None as its
citation: filling a text which has no scheme of its own raised AttributeError.
---
 MyCapytain/resources/prototypes/cts/text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/resources/prototypes/cts/text.py b/MyCapytain/resources/prototypes/cts/text.py
index 0584a19..1fd5219 100644
--- a/MyCapytain/resources/prototypes/cts/text.py
+++ b/MyCapytain/resources/prototypes/cts/text.py
@@ -119,7 +119,7 @@ class PrototypeCtsNode(InteractiveTextualNode):
             self.metadata.add(RDF_NAMESPACES.CTS.description, lang=lang, value=str(node))
             self.set_description(str(node), lang)
 
-        if not self.citation.is_set() and edition.citation.is_set():
+        if not self.citation.is_set() and edition.citation is not None and edition.citation.is_set():
             self.citation = edition.citation
 
 
-- 
2.43.0


From 4bde3e6182bb1593a5ec6ee5a44d618b9a305735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:45 +0000
Subject: [PATCH 64/77] fix: empty labels of a CTS API reply are empty, not
 'None'

An empty groupname, title, label or description has no text node: its value
was stored as the string "None".
---
 MyCapytain/resources/texts/remote/cts.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/MyCapytain/resources/texts/remote/cts.py b/MyCapytain/resources/texts/remote/cts.py
index 869d290..4c7c9fe 100644
--- a/MyCapytain/resources/texts/remote/cts.py
+++ b/MyCapytain/resources/texts/remote/cts.py
@@ -159,23 +159,23 @@ class _SharedMethod(InteractiveTextualNode):
         """
         for node in xml.xpath(".//ti:groupname", namespaces=XPATH_NAMESPACES):
             lang = node.get("{http://www.w3.org/XML/1998/namespace}lang") or CtsText.DEFAULT_LANG
-            self.metadata.add(RDF_NAMESPACES.CTS.groupname, lang=lang, value=node.text)
-            self.set_creator(node.text, lang)
+            self.metadata.add(RDF_NAMESPACES.CTS.groupname, lang=lang, value=node.text or "")
+            self.set_creator(node.text or "", lang)
 
         for node in xml.xpath(".//ti:title", namespaces=XPATH_NAMESPACES):
             lang = node.get("{http://www.w3.org/XML/1998/namespace}lang") or CtsText.DEFAULT_LANG
-            self.metadata.add(RDF_NAMESPACES.CTS.title, lang=lang, value=node.text)
-            self.set_title(node.text, lang)
+            self.metadata.add(RDF_NAMESPACES.CTS.title, lang=lang, value=node.text or "")
+            self.set_title(node.text or "", lang)
 
         for node in xml.xpath(".//ti:label", namespaces=XPATH_NAMESPACES):
             lang = node.get("{http://www.w3.org/XML/1998/namespace}lang") or CtsText.DEFAULT_LANG
-            self.metadata.add(RDF_NAMESPACES.CTS.label, lang=lang, value=node.text)
-            self.set_subject(node.text, lang)
+            self.metadata.add(RDF_NAMESPACES.CTS.label, lang=lang, value=node.text or "")
+            self.set_subject(node.text or "", lang)
 
         for node in xml.xpath(".//ti:description", namespaces=XPATH_NAMESPACES):
             lang = node.get("{http://www.w3.org/XML/1998/namespace}lang") or CtsText.DEFAULT_LANG
-            self.metadata.add(RDF_NAMESPACES.CTS.description, lang=lang, value=node.text)
-            self.set_description(node.text, lang)
+            self.metadata.add(RDF_NAMESPACES.CTS.description, lang=lang, value=node.text or "")
+            self.set_description(node.text or "", lang)
 
         # Need to code that p
         if not self.citation.is_set() and xml.xpath("//ti:citation", namespaces=XPATH_NAMESPACES):
-- 
2.43.0


From 93d6e77d01d7b9881e507742c2ea3fc0b46a29b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:10 +0000
Subject: [PATCH 65/77] fix: DTS references can be copied and pickled

---
 MyCapytain/common/reference/_dts_1.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/MyCapytain/common/reference/_dts_1.py b/MyCapytain/common/reference/_dts_1.py
index 4ae6c6d..a76f583 100644
--- a/MyCapytain/common/reference/_dts_1.py
+++ b/MyCapytain/common/reference/_dts_1.py
@@ -20,6 +20,10 @@ class DtsReference(BaseReference):
             o.type = type_
         return o
 
+    def __getnewargs__(self):
+        # Copies are made from both bounds, not from a tuple of them
+        return tuple(self)
+
     @property
     def metadata(self) -> Metadata:
         return self._metadata
-- 
2.43.0


From 6dc328db7218ab54c4cf6d7b5a8db72d1ff49baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:10 +0000
Subject: [PATCH 66/77] fix: metadata are exported with the prefixes of their
 own graph

---
 MyCapytain/common/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/common/metadata.py b/MyCapytain/common/metadata.py
index 7cde21e..f2c3a9d 100644
--- a/MyCapytain/common/metadata.py
+++ b/MyCapytain/common/metadata.py
@@ -163,7 +163,7 @@ class Metadata(Exportable):
         .. warning:: exclude and warning cannot be used together
         """
         graph = Graph()
-        graph.namespace_manager = get_graph().namespace_manager
+        graph.namespace_manager = self.graph.namespace_manager
 
         if only is not None:
             only = [str(s) for s in only]
-- 
2.43.0


From e8172b7c8bf6cd68251f5ed7ed676da85c534124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:10 +0000
Subject: [PATCH 67/77] fix: neighbours of a passage named by a word

---
 MyCapytain/resources/texts/local/capitains/cts.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/MyCapytain/resources/texts/local/capitains/cts.py b/MyCapytain/resources/texts/local/capitains/cts.py
index f762566..eed9819 100644
--- a/MyCapytain/resources/texts/local/capitains/cts.py
+++ b/MyCapytain/resources/texts/local/capitains/cts.py
@@ -454,7 +454,8 @@ class _SimplePassage(_SharedMethods, PrototypeCtsPassage):
         if self.reference.is_range():
             range_length = len(self.getReffs())
 
-        start = document_references.index(self.reference.start)
+        # Words of the passage are not listed among the references of the text
+        start = document_references.index(".".join(self.reference.start.list))
 
         if start == 0:
             # If the passage is already at the beginning
@@ -677,8 +678,9 @@ class CapitainsCtsPassage(_SharedMethods, PrototypeCtsPassage):
         else:
             start = end = self.reference.start
 
-        start = document_references.index(start)
-        end = document_references.index(end)
+        # Words of the passages are not listed among the references of the text
+        start = document_references.index(".".join(start.list))
+        end = document_references.index(".".join(end.list))
         range_length = end - start + 1
 
         if start == 0:
-- 
2.43.0


From b92a530ee36a254bcb17be4894963dd8fab1a63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:10 +0000
Subject: [PATCH 68/77] fix: a GetPassagePlus reply without citation leaves
 that of the text

---
 MyCapytain/resources/texts/remote/cts.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/MyCapytain/resources/texts/remote/cts.py b/MyCapytain/resources/texts/remote/cts.py
index 4c7c9fe..21fb8b7 100644
--- a/MyCapytain/resources/texts/remote/cts.py
+++ b/MyCapytain/resources/texts/remote/cts.py
@@ -148,7 +148,8 @@ class _SharedMethod(InteractiveTextualNode):
 
         passage = CtsPassage(urn=urn, resource=response, retriever=self.retriever)
         passage._parse_request(response.xpath("//ti:reply/ti:label", namespaces=XPATH_NAMESPACES)[0])
-        self.citation = passage.citation
+        if passage.citation.is_set():
+            self.citation = passage.citation
         return passage
 
     def _parse_request(self, xml):
-- 
2.43.0


From 747022a7757ce2dba79c0de32cd47740d5f394fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:43 +0000
Subject: [PATCH 69/77] fix: links of structured metadata read from a parsed
 element keep their value

---
 MyCapytain/resources/collections/cts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/resources/collections/cts.py b/MyCapytain/resources/collections/cts.py
index 88365e3..fd6a422 100644
--- a/MyCapytain/resources/collections/cts.py
+++ b/MyCapytain/resources/collections/cts.py
@@ -115,7 +115,7 @@ def _parse_structured_metadata(obj, xml):
             if s_m.startswith("urn:") or s_m.startswith("http:") or s_m.startswith("https:") or s_m.startswith("hdl:"):
                 obj.metadata.add(
                     tag,
-                    URIRef(str(metadata))
+                    URIRef(s_m)
                 )
             elif '{http://www.w3.org/XML/1998/namespace}lang' in metadata.attrib:
                 obj.metadata.add(
-- 
2.43.0


From a62a6693705b84567f9462af37fde6b49bf0463e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:07:02 +0000
Subject: [PATCH 70/77] fix: ranges of texts whose scheme leaves out the root

---
 MyCapytain/resources/texts/local/capitains/cts.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/MyCapytain/resources/texts/local/capitains/cts.py b/MyCapytain/resources/texts/local/capitains/cts.py
index eed9819..d818992 100644
--- a/MyCapytain/resources/texts/local/capitains/cts.py
+++ b/MyCapytain/resources/texts/local/capitains/cts.py
@@ -84,7 +84,11 @@ class _SharedMethods(TeiResource):
         citation_end = self.citation.root[len(end)-1]
 
         start, end = citation_start.fill(passage=start), citation_end.fill(passage=end)
-        start, end = normalizeXpath(start.split("/")[2:]), normalizeXpath(end.split("/")[2:])
+        # The root is already there, unless the scheme starts from any of its descendants
+        start, end = [
+            normalizeXpath(path.split("/")[1 if path.startswith("//") else 2:])
+            for path in (start, end)
+        ]
 
         xml = self.textObject.xml
 
-- 
2.43.0


From 833111a06c8f1a21565a7948e36d832988c135f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:07:02 +0000
Subject: [PATCH 71/77] fix: a dot in a sub-reference is not a level of the
 passage

---
 MyCapytain/common/reference/_capitains_cts.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/common/reference/_capitains_cts.py b/MyCapytain/common/reference/_capitains_cts.py
index 5181dcd..451a369 100644
--- a/MyCapytain/common/reference/_capitains_cts.py
+++ b/MyCapytain/common/reference/_capitains_cts.py
@@ -104,11 +104,11 @@ class CtsSinglePassageId(str):
         yield from subref.split(".")
 
     def __len__(self) -> int:
-        return self.count(".") + 1
+        return len(self.list)
 
     @property
     def depth(self) -> int:
-        return self.count(".") + 1
+        return len(self.list)
 
 
 class CtsReference(BaseReference):
-- 
2.43.0


From 56f3f9eb10876be228bf5fd4ad9056621b9e2e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:07:02 +0000
Subject: [PATCH 72/77] fix: words of sub-references with anything but letters
 are not cut

---
 MyCapytain/common/reference/_capitains_cts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/common/reference/_capitains_cts.py b/MyCapytain/common/reference/_capitains_cts.py
index 451a369..a3d7b2c 100644
--- a/MyCapytain/common/reference/_capitains_cts.py
+++ b/MyCapytain/common/reference/_capitains_cts.py
@@ -10,7 +10,7 @@ from ._base import BaseCitation, BaseReference, BaseReferenceSet
 
 REFSDECL_SPLITTER = re.compile(r"/+[^/]+")
 REFSDECL_REPLACER = re.compile(r"\$[0-9]+")
-SUBREFERENCE = re.compile(r"(\w*)\[?([0-9]*)\]?", re.UNICODE)
+SUBREFERENCE = re.compile(r"([^\[\]]*)\[?([0-9]*)\]?", re.UNICODE)
 REFERENCE_REPLACER = re.compile(r"(@[a-zA-Z0-9:]+)(=)(\\?['\"](?:\$[0-9]+|\?)\\?['\"])")
 
 
-- 
2.43.0


From f07f8f44715482de45787936ecaa4ba7f1a7babc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:58 +0000
Subject: [PATCH 73/77] fix: references of passages identified by an attribute
 with a digit

The attribute of a citation level was searched with a pattern of letters
only, so that listing the references of a scheme such as
//l[@n2='$1'] raised IndexError.
---
 MyCapytain/common/reference/_capitains_cts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/common/reference/_capitains_cts.py b/MyCapytain/common/reference/_capitains_cts.py
index a3d7b2c..3a5b094 100644
--- a/MyCapytain/common/reference/_capitains_cts.py
+++ b/MyCapytain/common/reference/_capitains_cts.py
@@ -772,7 +772,7 @@ class Citation(BaseCitation):
         """ Attribute that serves as a reference getter
         """
         refs = re.findall(
-            "\@([a-zA-Z:]+)=\\\?[\'\"]\$"+str(self.refsDecl.count("$"))+"\\\?[\'\"]",
+            "\@([a-zA-Z0-9:]+)=\\\?[\'\"]\$"+str(self.refsDecl.count("$"))+"\\\?[\'\"]",
             self.refsDecl
         )
         return refs[-1]
-- 
2.43.0


From 3c37be97f72d4baed2c4ea8f7fc217ae8b8645c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:27 +0000
Subject: [PATCH 74/77] fix: deleting a member of a DTS collection, whose
 parents are a set

---
 MyCapytain/resources/prototypes/metadata.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/resources/prototypes/metadata.py b/MyCapytain/resources/prototypes/metadata.py
index 3c974fd..be12e6e 100644
--- a/MyCapytain/resources/prototypes/metadata.py
+++ b/MyCapytain/resources/prototypes/metadata.py
@@ -234,8 +234,12 @@ class Collection(Exportable):
         item.metadata.remove()
         item.metadata.unlink()
         # Delete the Python item
-        if len(item.parents) > 0:
-            del item.parents[0].children[item.id]
+        parents = item.parents
+        if isinstance(parents, list):
+            # From the direct parent to the furthest one : only DTS collections have several direct ones
+            parents = parents[:1]
+        for parent in list(parents):
+            parent.children.pop(item.id, None)
 
     def __contains__(self, item):
         """ Retrieve an item by its ID in the tree of a collection
-- 
2.43.0


From 028966b3d13fa2ca3f90189d3a89d1666d3373cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:58 +0000
Subject: [PATCH 75/77] fix: the empty title of a text is a title

---
 MyCapytain/resources/prototypes/text.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/resources/prototypes/text.py b/MyCapytain/resources/prototypes/text.py
index e0110ce..747ab37 100644
--- a/MyCapytain/resources/prototypes/text.py
+++ b/MyCapytain/resources/prototypes/text.py
@@ -110,8 +110,10 @@ class TextualElement(Exportable):
         :return: Title string representation
         :rtype: Literal
         """
-        return self.metadata.get_single(key=DC.title, lang=lang) or \
-            self.metadata.get_single(key=DCT.title, lang=lang)
+        title = self.metadata.get_single(key=DC.title, lang=lang)
+        if title is None:
+            title = self.metadata.get_single(key=DCT.title, lang=lang)
+        return title
 
     def set_title(self, value: Union[Literal, Identifier, str], lang: str= None):
         """ Set the DC Title literal value
-- 
2.43.0


From b9fd57ad89cf3538f62d73c3e80f9e90fee8a36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:22:50 +0000
Subject: [PATCH 76/77] fix: folders of a corpus are not patterns

---
 MyCapytain/resolvers/cts/local.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/MyCapytain/resolvers/cts/local.py b/MyCapytain/resolvers/cts/local.py
index 75a258e..2bfe918 100644
--- a/MyCapytain/resolvers/cts/local.py
+++ b/MyCapytain/resolvers/cts/local.py
@@ -4,7 +4,7 @@
 import io
 import logging
 import os.path
-from glob import glob
+from glob import escape, glob
 from math import ceil
 
 from MyCapytain.common.reference._capitains_cts import CtsReference, URN
@@ -284,7 +284,7 @@ class CtsCapitainsLocalResolver(Resolver):
         invalids = []
 
         for folder in resource:
-            cts_files = glob("{base_folder}/data/*/__cts__.xml".format(base_folder=folder))
+            cts_files = glob("{base_folder}/data/*/__cts__.xml".format(base_folder=escape(folder)))
             for cts_file in cts_files:
                 parsed = self._parse_textgroup_wrapper(cts_file)
                 # If parsing errors are not raised, what could not be parsed is skipped
@@ -292,7 +292,9 @@ class CtsCapitainsLocalResolver(Resolver):
                     textgroups.append(parsed)
 
         for textgroup, cts_textgroup_file in textgroups:
-            cts_work_files = glob("{parent}/*/__cts__.xml".format(parent=os.path.dirname(cts_textgroup_file)))
+            cts_work_files = glob("{parent}/*/__cts__.xml".format(
+                parent=escape(os.path.dirname(cts_textgroup_file))
+            ))
 
             for cts_work_file in cts_work_files:
                 parsed = self._parse_work_wrapper(cts_work_file, textgroup)
-- 
2.43.0


From c18d68765d7340be6898e803387646d1d5c2e9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:53:22 +0000
Subject: [PATCH 77/77] fix: a text which reads true or false is not a number

---
 MyCapytain/resources/collections/cts.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/resources/collections/cts.py b/MyCapytain/resources/collections/cts.py
index fd6a422..becdbc3 100644
--- a/MyCapytain/resources/collections/cts.py
+++ b/MyCapytain/resources/collections/cts.py
@@ -11,7 +11,7 @@ from __future__ import unicode_literals
 
 from rdflib import URIRef, Literal
 from rdflib.namespace import XSD
-from lxml.objectify import IntElement, FloatElement
+from lxml.objectify import BoolElement, IntElement, FloatElement
 
 from MyCapytain.resources.prototypes.cts import inventory as cts
 from MyCapytain.common.reference._capitains_cts import Citation as CitationPrototype
@@ -129,7 +129,7 @@ def _parse_structured_metadata(obj, xml):
                     if not datatype.startswith("http") and ":" in datatype:
                         datatype = expand_namespace(metadata.nsmap, datatype)
                     obj.metadata.add(tag, Literal(s_m, datatype=URIRef(datatype)))
-                elif isinstance(metadata, IntElement):
+                elif isinstance(metadata, IntElement) and not isinstance(metadata, BoolElement):
                     obj.metadata.add(tag, Literal(int(metadata), datatype=XSD.integer))
                 elif isinstance(metadata, FloatElement):
                     obj.metadata.add(tag, Literal(float(metadata), datatype=XSD.float))
-- 
2.43.0

