From 8df24cb335494e50300b5f8efc88fb7b273323b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:39:19 +0000
Subject: [PATCH 01/23] fix: TagList += normalises its operand like extend()

---
 htmltools/_core.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index 405b6ce..644762e 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -320,6 +320,14 @@ class TagList(UserList[TagNode]):
 
         return TagList(*item, self)
 
+    def __iadd__(self, item: Iterable[TagChild]) -> TagList:
+        """
+        Add the item to the end of this TagList, in place.
+        """
+
+        self.extend(item)
+        return self
+
     def tagify(self) -> "TagList":
         """
         Convert any tagifiable children to Tag/TagList objects.
-- 
2.43.0


From 0547c22f959ebc1790d8f28a8780d47795f73cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:39:19 +0000
Subject: [PATCH 02/23] fix: is_tag_child() accepts int, as TagList does

---
 htmltools/_core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index 644762e..9c7a007 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -208,6 +208,7 @@ def is_tag_child(x: object) -> TypeIs[TagChild]:
             # TagNode, # Handled above
             TagList,
             float,
+            int,
             # None, # Handled above
             Sequence,
         ),
-- 
2.43.0


From 36d29b66035fa8142308d62f40bb76e021b51902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:39:19 +0000
Subject: [PATCH 03/23] fix: keep HTML() whole in TagList.extend() and +

---
 htmltools/_core.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index 9c7a007..501b9d5 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -272,11 +272,11 @@ class TagList(UserList[TagNode]):
     <div id="foo" class="bar"></div>
     """
 
-    def _should_not_expand(self, x: object) -> TypeIs[str]:
+    def _should_not_expand(self, x: object) -> TypeIs[str | HTML]:
         """
         Check if an object should not be expanded into a list of children.
         """
-        return isinstance(x, str)
+        return isinstance(x, (str, HTML))
 
     def __init__(self, *args: TagChild) -> None:
         super().__init__(_tagchilds_to_tagnodes(args))
@@ -1934,7 +1934,7 @@ def consolidate_attrs(
 # Convert a list of TagChild objects to a list of TagNode objects. Does not alter input
 # object.
 def _tagchilds_to_tagnodes(x: Iterable[TagChild]) -> list[TagNode]:
-    if isinstance(x, str):
+    if isinstance(x, (str, HTML)):
         return [x]
 
     result = flatten(x)
-- 
2.43.0


From db0b55f5a14e724ac36a280375d851411346e446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:03 +0000
Subject: [PATCH 04/23] fix: escape plain attribute values merged with HTML()
 as attributes

---
 htmltools/_core.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index 501b9d5..2022e7c 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -564,12 +564,22 @@ class TagAttrDict(Dict[str, "str | HTML"]):
                 nm = self._normalize_attr_name(k)
 
                 if nm in attrz:
-                    val = attrz[nm] + " " + val
+                    val = self._join_attr_values(attrz[nm], val)
 
                 attrz[nm] = val
 
         super().update(attrz)
 
+    @staticmethod
+    def _join_attr_values(x: str | HTML, y: str | HTML) -> str | HTML:
+        # If either value is HTML, then the result is HTML and it won't be escaped when
+        # it's written, so a plain value needs to be escaped for an attribute here.
+        if isinstance(x, HTML) and not isinstance(y, HTML):
+            y = HTML(html_escape(y, attr=True))
+        elif isinstance(y, HTML) and not isinstance(x, HTML):
+            x = HTML(html_escape(x, attr=True))
+        return x + " " + y
+
     @staticmethod
     def _normalize_attr_name(x: str) -> str:
         # e.g., foo_Bar_ -> foo-Bar
-- 
2.43.0


From 835def9fd8c6b966bf016df9ee1590ccffa7b8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:03 +0000
Subject: [PATCH 05/23] fix: has_class()/remove_class() with an HTML() class
 attribute

---
 htmltools/_core.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index 2022e7c..04ad026 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -794,13 +794,17 @@ class Tag:
 
         # Coerce and clean
         class_ = str(class_).strip()
+        class_forms = self._class_forms(class_)
 
         # Remove the class value from the ordered set of class values
         # Note: .split() splits on any whitespace and removes empty strings
-        new_classes = [cls_val for cls_val in cls.split() if cls_val != class_]
+        new_classes = [cls_val for cls_val in cls.split() if cls_val not in class_forms]
         if len(new_classes) > 0:
             # Store the new class value
-            self.attrs.update({"class": " ".join(new_classes)})
+            new_cls = " ".join(new_classes)
+            self.attrs.update(
+                {"class": HTML(new_cls) if isinstance(cls, HTML) else new_cls}
+            )
         else:
             # If no class values remain, remove the class attribute
             self.attrs.pop("class")
@@ -822,10 +826,18 @@ class Tag:
         """
         cls = self.attrs.get("class")
         if cls:
-            return class_ in cls.split()
+            class_forms = self._class_forms(class_)
+            return any(cls_val in class_forms for cls_val in cls.split())
         else:
             return False
 
+    def _class_forms(self, class_: str) -> tuple[str, ...]:
+        # The ways `class_` may be written in the class attribute: if the attribute is
+        # HTML, plain class names were escaped when they were added to it.
+        if isinstance(self.attrs.get("class"), HTML):
+            return (class_, html_escape(str(class_), attr=True))
+        return (class_,)
+
     def add_style(self: TagT, style: str | HTML, *, prepend: bool = False) -> TagT:
         """
         Add a style value(s) to the HTML style attribute.
-- 
2.43.0


From dd4c51c57a6211e98c27b12dcedc3d87669423b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:03 +0000
Subject: [PATCH 06/23] fix: HTMLDocument.render() tagifies first and leaves
 its content alone

---
 htmltools/_core.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index 04ad026..00106ba 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -1169,7 +1169,9 @@ class HTMLDocument:
     def _gen_html_tag_tree(
         self, lib_prefix: Optional[str], include_version: bool
     ) -> Tag:
-        content: TagList = self._content
+        # Tagify first, so that the original content is not altered, and so that an
+        # object which expands to an <html> or <body> tag is treated as that tag.
+        content: TagList = self._content.tagify()
         html: Tag
         body: Tag
 
@@ -1180,7 +1182,6 @@ class HTMLDocument:
         ):
             html = cast(Tag, content[0])
             html.attrs.update(**self._html_attr_args)
-            html = html.tagify()
             html = HTMLDocument._hoist_head_content(html, lib_prefix, include_version)
             return html
 
@@ -1193,8 +1194,6 @@ class HTMLDocument:
         else:
             body = Tag("body", content)
 
-        body = body.tagify()
-
         html = Tag("html", Tag("head"), body, _add_ws=True, **self._html_attr_args)
         html = HTMLDocument._hoist_head_content(html, lib_prefix, include_version)
         return html
-- 
2.43.0


From 37a9e0faa9e3144ae20a18229c2c9b53df8d7fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:03 +0000
Subject: [PATCH 07/23] fix: copies of an HTMLDependency are independent of the
 original

---
 htmltools/_core.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index 00106ba..09b076b 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -1662,6 +1662,18 @@ class HTMLDependency(MetadataNode):
         else:
             self.head = TagList(head)
 
+    def __copy__(self) -> "HTMLDependency":
+        cls = self.__class__
+        cp = cls.__new__(cls)
+        cp.__dict__.update(self.__dict__)
+        # As with any MetadataNode, the copy must be independent of the original.
+        cp.source = deepcopy(self.source)
+        cp.script = deepcopy(self.script)
+        cp.stylesheet = deepcopy(self.stylesheet)
+        cp.meta = deepcopy(self.meta)
+        cp.head = None if self.head is None else _copy_tree(self.head)
+        return cp
+
     def source_path_map(
         self, *, lib_prefix: Optional[str] = "lib", include_version: bool = True
     ) -> SourcePathMapping:
@@ -1974,6 +1986,18 @@ def _tagchilds_to_tagnodes(x: Iterable[TagChild]) -> list[TagNode]:
     return cast("list[TagNode]", result)
 
 
+# Copy a TagList along with all of the Tags and MetadataNodes in it, without tagifying.
+def _copy_tree(x: TagList) -> TagList:
+    res = copy(x)
+    for i, child in enumerate(res):
+        if isinstance(child, (Tag, MetadataNode)):
+            child = copy(child)
+        if isinstance(child, Tag):
+            child.children = _copy_tree(child.children)
+        res[i] = child
+    return res
+
+
 def _tag_show(
     self: "TagList | Tag",
     renderer: Literal["auto", "ipython", "browser"] = "auto",
-- 
2.43.0


From d713383557806a933cf2037ed1977d8795017d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:03 +0000
Subject: [PATCH 08/23] fix: Tag equality ignores the context manager's saved
 display hook

---
 htmltools/_core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index 09b076b..099ac4b 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -2049,6 +2049,9 @@ def _equals_impl(x: Any, y: Any) -> bool:
     if not isinstance(y, type(x)):
         return False
     for key in x.__dict__.keys():
+        # Not part of the content: only set while a Tag is used as a context manager.
+        if key == "prev_displayhook":
+            continue
         if getattr(x, key, None) != getattr(y, key, None):
             return False
     return True
-- 
2.43.0


From d44255b7b09291e09a966a59754d6a120ef9ae60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:03 +0000
Subject: [PATCH 09/23] fix: neutralise </script in any case in serialised
 dependencies

---
 htmltools/_core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index 099ac4b..7a82292 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -1731,8 +1731,8 @@ class HTMLDependency(MetadataNode):
 
         return Tag(
             "script",
-            # "</script>" in a script tag must be escaped
-            json.dumps(res, indent=indent).replace("</script>", "<\\/script>"),
+            # "</script" (in any case) in a script tag must be escaped
+            re.sub("(?i)</(?=script)", r"<\\/", json.dumps(res, indent=indent)),
             type="application/json",
             data_html_dependency=True,
         )
-- 
2.43.0


From 032f3d9dd54939e70891d5282f48fbc223a3aaad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:04 +0000
Subject: [PATCH 10/23] fix: HTMLTextDocument does not alter the deps list it
 is given

---
 htmltools/_core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index 7a82292..e436473 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -1297,7 +1297,8 @@ class HTMLTextDocument:
         self._html = html
         if deps is None:
             deps = []
-        self._deps = deps
+        # Copy, because the dependencies found in the text will be added to it.
+        self._deps = list(deps)
 
         self._deps_replace_pattern = deps_replace_pattern
 
-- 
2.43.0


From ac3451368f3491dfca6e0580754c77cc106e22af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:04 +0000
Subject: [PATCH 11/23] fix: display hook compares with None and Ellipsis by
 identity

---
 htmltools/_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index e436473..e88c096 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -1059,7 +1059,7 @@ def wrap_displayhook_handler(
             handler(value)
         elif isinstance(value, ReprHtml):
             handler(HTML(value._repr_html_()))  # pyright: ignore[reportPrivateUsage]
-        elif value not in (None, ...):
+        elif value is not None and value is not ...:
             handler(value)
 
     return handler_wrapper
-- 
2.43.0


From e57150be965a34bc744dabd5bc1c3927cd3fd2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:50 +0000
Subject: [PATCH 12/23] fix: tagify() also expands objects in a dependency's
 head markup

---
 htmltools/_core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index e88c096..1c3668e 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -351,7 +351,10 @@ class TagList(UserList[TagNode]):
                     cp[i] = tagified_child
 
             elif isinstance(child, MetadataNode):
-                cp[i] = copy(child)
+                child = copy(child)
+                if isinstance(child, HTMLDependency) and child.head is not None:
+                    child.head = child.head.tagify()
+                cp[i] = child
         return cp
 
     def save_html(
-- 
2.43.0


From 791ed9b5a4c73d0cb8f014385948d9685eb6fda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:50 +0000
Subject: [PATCH 13/23] fix: hoist dependencies found in another dependency's
 head markup

---
 htmltools/_core.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index 1c3668e..fcefeda 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -486,6 +486,9 @@ class TagList(UserList[TagNode]):
         for x in self:
             if isinstance(x, HTMLDependency):
                 deps.append(x)
+                # The dependency's head markup may itself have dependencies.
+                if x.head is not None:
+                    deps.extend(x.head.get_dependencies(dedup=False))
             elif isinstance(x, Tag):
                 # When we recurse, don't deduplicate at every node. We only need to do
                 # that once, at the top level.
@@ -1244,9 +1247,14 @@ class HTMLDocument:
                 )
             )
 
+        # Any dependencies inside of the hoisted tags are already in `deps`.
         head.extend(
             [
-                d.as_html_tags(lib_prefix=lib_prefix, include_version=include_version)
+                _drop_metadata(
+                    d.as_html_tags(
+                        lib_prefix=lib_prefix, include_version=include_version
+                    )
+                )
                 for d in deps
             ]
         )
@@ -2002,6 +2010,19 @@ def _copy_tree(x: TagList) -> TagList:
     return res
 
 
+# Copy a TagList and all of the Tags in it, leaving out the MetadataNodes.
+def _drop_metadata(x: TagList) -> TagList:
+    res = copy(x)
+    res.clear()
+    for child in x:
+        if isinstance(child, Tag):
+            child = copy(child)
+            child.children = _drop_metadata(child.children)
+        if not isinstance(child, MetadataNode):
+            res.append(child)
+    return res
+
+
 def _tag_show(
     self: "TagList | Tag",
     renderer: Literal["auto", "ipython", "browser"] = "auto",
-- 
2.43.0


From 959684f332c76e0ae71df75c0b00af76ee5bdf37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:41:29 +0000
Subject: [PATCH 14/23] fix: JSXTag.tagify() leaves the component unaltered

---
 htmltools/_jsx.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/htmltools/_jsx.py b/htmltools/_jsx.py
index 02a1c9d..9331274 100644
--- a/htmltools/_jsx.py
+++ b/htmltools/_jsx.py
@@ -104,6 +104,13 @@ class JSXTag:
         self.attrs: JSXTagAttrDict = JSXTagAttrDict(**kwargs)
         self.children: TagList = TagList(*args)
 
+    def __copy__(self) -> "JSXTag":
+        cls = self.__class__
+        cp = cls.__new__(cls)
+        # As with Tag, any instance fields (.attrs and .children) are shallow-copied.
+        cp.__dict__.update({k: copy.copy(v) for k, v in self.__dict__.items()})
+        return cp
+
     def extend(self, x: Iterable[TagNode]) -> None:
         self.children.extend(x)
 
@@ -121,20 +128,20 @@ class JSXTag:
         def tagify_tagifiable_and_get_metadata(x: Any) -> Any:
             if isinstance(x, Tagifiable) and not isinstance(x, (Tag, JSXTag)):
                 x = x.tagify()
-            else:
-                x = copy.copy(x)
+            # Always work on a copy, so that this object, and any object that is
+            # returned by a .tagify() method, is left unaltered.
+            x = copy.copy(x)
             if isinstance(x, MetadataNode):
                 metadata_nodes.append(x)
             return x
 
-        cp = copy.copy(self)
-        _walk_attrs_and_children(cp, tagify_tagifiable_and_get_metadata)
+        cp = _walk_attrs_and_children(self, tagify_tagifiable_and_get_metadata)
 
         # When _render_react_js()  is called on a JSXTag object, we'll recurse, but
         # instead of calling the standard Tag.get_html_string() method to format the
         # object, we'll recurse using _render_react_js(), which descends into the tree
         # and formats objects appropriately for inside of a JSX element.
-        component = _render_react_js(self, 2, "\n")
+        component = _render_react_js(cp, 2, "\n")
 
         # Ideally, we'd use document.currentScript.after() to insert the component
         # directly after the script tag, but when dynamically rendered via jQuery (i.e.,
-- 
2.43.0


From e8229dce9030fea5a9d53d46b1967b0a85836a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:41:29 +0000
Subject: [PATCH 15/23] fix: JSX descendants that tagify to a TagList are
 spliced in

---
 htmltools/_jsx.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/htmltools/_jsx.py b/htmltools/_jsx.py
index 9331274..1b7ccfb 100644
--- a/htmltools/_jsx.py
+++ b/htmltools/_jsx.py
@@ -194,13 +194,13 @@ def _walk_attrs_and_children(x: Any, fn: Callable[[Any], Any]) -> Any:
     x = fn(x)
 
     if isinstance(x, Tag):
-        for i, child in enumerate(x.children):
-            x.children[i] = _walk_attrs_and_children(child, fn)
+        x.children = _walk_children(x.children, fn)
     elif isinstance(x, JSXTag):
         for key, value in x.attrs.items():
             x.attrs[key] = _walk_attrs_and_children(value, fn)
-        for i, child in enumerate(x.children):
-            x.children[i] = _walk_attrs_and_children(child, fn)
+        x.children = _walk_children(x.children, fn)
+    elif isinstance(x, TagList):
+        x = _walk_children(x, fn)
     elif isinstance(x, Tagifiable):
         # Don't do anything here?
         pass
@@ -208,6 +208,11 @@ def _walk_attrs_and_children(x: Any, fn: Callable[[Any], Any]) -> Any:
     return x
 
 
+# A child may turn into a TagList, in which case its items are spliced in.
+def _walk_children(x: TagList, fn: Callable[[Any], Any]) -> TagList:
+    return TagList(*[_walk_attrs_and_children(child, fn) for child in x])
+
+
 # Return a string representing the rendered HTML for the given JSXTag object. The
 # metadata_nodes object collects MetadataNode objects in the tree, and is altered by
 # reference as a side-effect of this function.
-- 
2.43.0


From 0ee1995dfb4f41a33b05289804fae989eff1796f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:41:29 +0000
Subject: [PATCH 16/23] fix: an empty JSX allowedProps list allows no props

---
 htmltools/_jsx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/htmltools/_jsx.py b/htmltools/_jsx.py
index 1b7ccfb..3e8dac6 100644
--- a/htmltools/_jsx.py
+++ b/htmltools/_jsx.py
@@ -94,7 +94,7 @@ class JSXTag:
         if pieces[-1][:1] != pieces[-1][:1].upper():
             raise NotImplementedError("JSX tags must be start with a capital letter.")
 
-        if allowedProps:
+        if allowedProps is not None:
             for k in kwargs.keys():
                 if k not in allowedProps:
                     raise NotImplementedError(f"{k} is not a valid prop for {_name}")
-- 
2.43.0


From 08f9708517d7fc2352c7e539de6c94acb7921e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:41:29 +0000
Subject: [PATCH 17/23] fix: JSX style strings may have colons in values

---
 htmltools/_jsx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/htmltools/_jsx.py b/htmltools/_jsx.py
index 3e8dac6..4cebf17 100644
--- a/htmltools/_jsx.py
+++ b/htmltools/_jsx.py
@@ -290,7 +290,7 @@ def _serialize_style_attr(x: object) -> str:
     if isinstance(x, str):
         x = cast(
             "list[tuple[str, str]]",
-            [tuple(y.split(":")) for y in x.split(";") if re.search(":", y)],
+            [tuple(y.split(":", 1)) for y in x.split(";") if re.search(":", y)],
         )
         x = dict(x)
     if isinstance(x, dict):
-- 
2.43.0


From b42ad093101e204a41af5b7db2787a6616b15865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:41:29 +0000
Subject: [PATCH 18/23] fix: serialise non-finite numbers and quoted dict keys
 in JSX props

---
 htmltools/_jsx.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/htmltools/_jsx.py b/htmltools/_jsx.py
index 4cebf17..ad4b7f6 100644
--- a/htmltools/_jsx.py
+++ b/htmltools/_jsx.py
@@ -8,6 +8,7 @@ components may become unsupported in a future version (see #26 and #28)
 from __future__ import annotations
 
 import copy
+import math
 import re
 from typing import Any, Callable, Dict, Iterable, Mapping, Optional, cast
 
@@ -275,9 +276,17 @@ def _serialize_attr(x: object) -> str:
         )
     if isinstance(x, dict):
         x1: dict[str, Any] = x  # make pyright happy
-        return "{" + ", ".join([f'"{y}": ' + _serialize_attr(x1[y]) for y in x1]) + "}"
+        return (
+            "{"
+            + ", ".join(
+                [f"{_serialize_attr(str(y))}: {_serialize_attr(x1[y])}" for y in x1]
+            )
+            + "}"
+        )
     if isinstance(x, bool):
         return str(x).lower()
+    if isinstance(x, float) and not math.isfinite(x):
+        return "NaN" if math.isnan(x) else "Infinity" if x > 0 else "-Infinity"
     if isinstance(x, (jsx, int, float)):
         return str(x)
     return '"' + str(x).replace('"', '\\"') + '"'
-- 
2.43.0


From 39ef80f228634aa546ce61f0031a4e7d4da6a526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:33 +0000
Subject: [PATCH 19/23] fix: HTMLDocument.render() leaves an <html> tag
 returned by tagify() alone

---
 htmltools/_core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index fcefeda..908ad20 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -1186,7 +1186,9 @@ class HTMLDocument:
             and isinstance(content[0], Tag)
             and cast(Tag, content[0]).name == "html"
         ):
-            html = cast(Tag, content[0])
+            # Copy, because this may be a tag that an object's tagify() method returns
+            # every time it's called.
+            html = copy(cast(Tag, content[0]))
             html.attrs.update(**self._html_attr_args)
             html = HTMLDocument._hoist_head_content(html, lib_prefix, include_version)
             return html
-- 
2.43.0


From da04897a5906616fc13eecade51b7520ba71d21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:01 +0000
Subject: [PATCH 20/23] fix: class helpers see line breaks escaped into an HTML
 class attribute as separators

A plain class value containing line breaks, merged with an HTML() one, is stored
with the line breaks written as character references; has_class() and
remove_class() took the neighbouring tokens for a single one.
---
 htmltools/_core.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index 908ad20..138bd46 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -803,8 +803,9 @@ class Tag:
         class_forms = self._class_forms(class_)
 
         # Remove the class value from the ordered set of class values
-        # Note: .split() splits on any whitespace and removes empty strings
-        new_classes = [cls_val for cls_val in cls.split() if cls_val not in class_forms]
+        new_classes = [
+            cls_val for cls_val in self._class_values() if cls_val not in class_forms
+        ]
         if len(new_classes) > 0:
             # Store the new class value
             new_cls = " ".join(new_classes)
@@ -830,12 +831,16 @@ class Tag:
         :
             ``True`` if the tag has the class, ``False`` otherwise.
         """
-        cls = self.attrs.get("class")
-        if cls:
-            class_forms = self._class_forms(class_)
-            return any(cls_val in class_forms for cls_val in cls.split())
-        else:
-            return False
+        class_forms = self._class_forms(class_)
+        return any(cls_val in class_forms for cls_val in self._class_values())
+
+    def _class_values(self) -> list[str]:
+        cls = self.attrs.get("class") or ""
+        if isinstance(cls, HTML):
+            # Line breaks in plain values were escaped when they were added to the HTML.
+            cls = re.sub("&#10;|&#13;", " ", str(cls))
+        # Note: .split() splits on any whitespace and removes empty strings
+        return cls.split()
 
     def _class_forms(self, class_: str) -> tuple[str, ...]:
         # The ways `class_` may be written in the class attribute: if the attribute is
-- 
2.43.0


From 473dfd272b91d00b04fa7cebdf5d9db7add20190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:20 +0000
Subject: [PATCH 21/23] fix: save_html() writes UTF-8, whatever the locale of
 the process

The document declares charset utf-8; with another preferred encoding the file
had different bytes, or writing it failed.
---
 htmltools/_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index 138bd46..ee26cc4 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -1168,7 +1168,7 @@ class HTMLDocument:
         for dep in rendered["dependencies"]:
             dep.copy_to(destdir, include_version=include_version)
 
-        with open(file, "w") as f:
+        with open(file, "w", encoding="utf-8") as f:
             f.write(rendered["html"])
         return file
 
-- 
2.43.0


From 135134edfb8d675e293ac625211dae1ff82ff1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:15 +0000
Subject: [PATCH 22/23] fix: a jsx() expression as style prop is written as it
 is

---
 htmltools/_jsx.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/htmltools/_jsx.py b/htmltools/_jsx.py
index ad4b7f6..3d54612 100644
--- a/htmltools/_jsx.py
+++ b/htmltools/_jsx.py
@@ -295,6 +295,8 @@ def _serialize_attr(x: object) -> str:
 def _serialize_style_attr(x: object) -> str:
     if x is None:
         return "{}"
+    if isinstance(x, jsx):
+        return str(x)
     # Parse CSS strings into a dict (because React requires it)
     if isinstance(x, str):
         x = cast(
-- 
2.43.0


From 714c3a270cdf2c2e441eedbb8d1bf253b1c56134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:36 +0000
Subject: [PATCH 23/23] fix: strings in a JSX component can't end its script
 element

---
 htmltools/_jsx.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/htmltools/_jsx.py b/htmltools/_jsx.py
index 3d54612..b87c7db 100644
--- a/htmltools/_jsx.py
+++ b/htmltools/_jsx.py
@@ -223,7 +223,7 @@ def _render_react_js(x: TagNode, indent: int, eol: str) -> str:
     if isinstance(x, MetadataNode):
         return ""
     elif isinstance(x, str):
-        return indent_str + '"' + x.replace('"', '\\"') + '"'
+        return indent_str + _quote(x)
 
     if isinstance(x, JSXTag):
         nm = x.name
@@ -289,7 +289,13 @@ def _serialize_attr(x: object) -> str:
         return "NaN" if math.isnan(x) else "Infinity" if x > 0 else "-Infinity"
     if isinstance(x, (jsx, int, float)):
         return str(x)
-    return '"' + str(x).replace('"', '\\"') + '"'
+    return _quote(str(x))
+
+
+# "</" and "<!--" are written in a way that has no effect on the end of the <script>
+# element.
+def _quote(x: str) -> str:
+    return '"' + re.sub("<(?=/|!--)", r"<\\", x.replace('"', '\\"')) + '"'
 
 
 def _serialize_style_attr(x: object) -> str:
-- 
2.43.0

