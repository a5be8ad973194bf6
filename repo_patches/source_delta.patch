From 5ad39726bee09c6603fc15ad5cfe76f20b4778c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:51 +0000
Subject: [PATCH 01/35] fix: Struct.from_bytes() rejects a single extra byte
 when exact is true

---
 binobj/structures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index 64bdb03..d8b13c9 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -551,9 +551,9 @@ class Struct(HasStruct):
         loaded_data = cls.from_stream(stream, context, init_kwargs)
 
         here = stream.tell()
-        if exact and (here < len(data) - 1):
+        if exact and here < len(data):
             raise errors.ExtraneousDataError(
-                f"Read {here + 1} bytes, but there are {len(data)} in the input data.",
+                f"Read {here} bytes, but there are {len(data)} in the input data.",
                 offset=stream.tell(),
             )
         return loaded_data
-- 
2.43.0


From 5ef323df087bcfa4997f453848295067e8529a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:54 +0000
Subject: [PATCH 02/35] fix: use the factory of an unset field when its struct
 is dumped

---
 binobj/fields/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binobj/fields/base.py b/binobj/fields/base.py
index 07f7fc7..236f7ca 100644
--- a/binobj/fields/base.py
+++ b/binobj/fields/base.py
@@ -440,7 +440,7 @@ class Field(Generic[T]):
         if self.name in all_values:
             # The value is already set in the struct so we don't need to do anything.
             value_to_dump = all_values[self.name]
-        elif self._default is not UNDEFINED:
+        elif self._default is not UNDEFINED or self.factory is not None:
             # The value is *not* set in the struct. Either this field must have a
             # default value, or it must be a computed field. Check for default values
             # here.
-- 
2.43.0


From 93fdab628dc5f6f755c664f44583e3a2b35cf6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:57 +0000
Subject: [PATCH 03/35] fix: raise SerializationError for a float that is too
 large for its field

---
 binobj/fields/numeric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binobj/fields/numeric.py b/binobj/fields/numeric.py
index 45a4eb5..4af0c30 100644
--- a/binobj/fields/numeric.py
+++ b/binobj/fields/numeric.py
@@ -110,7 +110,7 @@ class Float(Field[float]):
     ) -> None:
         try:
             serialized = struct.pack(self.format_string, data)
-        except struct.error as exc:
+        except (struct.error, OverflowError) as exc:
             raise errors.SerializationError(message=str(exc), field=self) from exc
         stream.write(serialized)
 
-- 
2.43.0


From 86dadd31ca248457e19f507e6ac6a8c1a62eaf2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:00 +0000
Subject: [PATCH 04/35] fix: a negative size is an error when loading, not a
 read up to EOF

---
 binobj/fields/base.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/binobj/fields/base.py b/binobj/fields/base.py
index 236f7ca..cbc9b81 100644
--- a/binobj/fields/base.py
+++ b/binobj/fields/base.py
@@ -988,6 +988,13 @@ class Field(Generic[T]):
 
         offset = stream.tell()
         n_bytes = self.get_expected_size(loaded_fields)
+        if n_bytes < 0:
+            # read() would take a negative size to mean "everything up to EOF".
+            raise errors.DeserializationError(
+                f"Can't read {n_bytes} bytes at offset {offset}.",
+                field=self,
+                offset=offset,
+            )
 
         data_read = stream.read(n_bytes)
         if len(data_read) < n_bytes:
-- 
2.43.0


From f82e0620b172429303d17b75361941d50e80e875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:03 +0000
Subject: [PATCH 05/35] fix: unions load with from_stream() of the chosen
 field, so that its null value, constant and validators apply

---
 binobj/fields/containers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binobj/fields/containers.py b/binobj/fields/containers.py
index 61954ee..7b3b290 100644
--- a/binobj/fields/containers.py
+++ b/binobj/fields/containers.py
@@ -492,7 +492,7 @@ class Union(Field[Any]):
     ) -> Any:
         loader = self.load_decider(stream, self.choices, context, loaded_fields)
         if isinstance(loader, Field):
-            return loader._do_load(stream, context, loaded_fields)  # noqa: SLF001
+            return loader.from_stream(stream, context, loaded_fields)
         if isinstance(loader, type) and issubclass(loader, Struct):
             return loader.from_stream(stream, context)
         raise TypeError(
-- 
2.43.0


From 6cc42aa9dbc383bf891b97b1fbd95256755f6586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:18 +0000
Subject: [PATCH 06/35] fix: StringZ reports EOF before the terminator as
 UnexpectedEOFError, so that partial_load() drops the incomplete string

---
 binobj/fields/stringlike.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/binobj/fields/stringlike.py b/binobj/fields/stringlike.py
index 36ef36c..adf9234 100644
--- a/binobj/fields/stringlike.py
+++ b/binobj/fields/stringlike.py
@@ -165,18 +165,32 @@ class StringZ(String):
         except errors.UndefinedSizeError:
             max_bytes = None
 
-        iterator = helpers.iter_bytes(stream, max_bytes)
-        reader = codecs.iterdecode(iterator, self.encoding)
+        offset = stream.tell()
+        decoder = codecs.getincrementaldecoder(self.encoding)()
         result = io.StringIO()
-
-        for char in reader:
+        n_read = 0
+
+        for byte in helpers.iter_bytes(stream, max_bytes):
+            n_read += 1
+            try:
+                char = decoder.decode(byte)
+            except UnicodeError as exc:
+                raise errors.DeserializationError(
+                    str(exc), field=self, offset=offset
+                ) from exc
             if char == "\0":
                 return result.getvalue()
             result.write(char)
 
-        # If we get out here then we hit EOF before getting to the null terminator.
+        if max_bytes is None or n_read < max_bytes:
+            # We hit EOF before getting to the null terminator.
+            raise errors.UnexpectedEOFError(
+                field=self, size=n_read + 1, offset=offset
+            )
         raise errors.DeserializationError(
-            "Hit EOF before finding the trailing null.", field=self
+            f"No trailing null in the {max_bytes} bytes of the string.",
+            field=self,
+            offset=offset,
         )
 
     @override
-- 
2.43.0


From 7e609bfdbf05b676cdc5f9037064d1e0eb4b5be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:32 +0000
Subject: [PATCH 07/35] fix: the default value of a StringZ doesn't limit how
 much is loaded

---
 binobj/fields/stringlike.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/binobj/fields/stringlike.py b/binobj/fields/stringlike.py
index adf9234..c41360f 100644
--- a/binobj/fields/stringlike.py
+++ b/binobj/fields/stringlike.py
@@ -159,11 +159,9 @@ class StringZ(String):
     def _do_load(
         self, stream: BinaryIO, context: object, loaded_fields: StrDict
     ) -> str:
-        max_bytes: Optional[int]
-        try:
+        max_bytes: Optional[int] = None
+        if self.size is not None:
             max_bytes = self.get_expected_size(loaded_fields)
-        except errors.UndefinedSizeError:
-            max_bytes = None
 
         offset = stream.tell()
         decoder = codecs.getincrementaldecoder(self.encoding)()
-- 
2.43.0


From 262165d39fe154f254c8c36cd163e52a43a8b3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:54 +0000
Subject: [PATCH 08/35] fix: the default value of a variable-length field
 doesn't make its struct fixed-size

---
 binobj/structures.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index d8b13c9..5589aae 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -191,10 +191,14 @@ class StructMetadata:
 
         .. versionadded:: 0.12.0
         """
+        field_objects = self.components.values()
         if field_values is None:
+            # A field that isn't of fixed size may still have a default value whose size
+            # is known, but that says nothing about the size of its other values.
+            if not all(f.has_fixed_size for f in field_objects):
+                return None
             field_values = {}
 
-        field_objects = self.components.values()
         try:
             return sum(f.get_expected_size(field_values) for f in field_objects)
         except (errors.UndefinedSizeError, errors.MissingRequiredValueError):
-- 
2.43.0


From cc20d50447a741ff9cbb56f79b6711695e584efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:57 +0000
Subject: [PATCH 09/35] fix: conditional fields count towards sizes and offsets
 only when they are present

---
 binobj/fields/base.py | 12 +++++++++++-
 binobj/pep526.py      |  6 +++++-
 binobj/structures.py  | 15 ++++++++++++---
 3 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/binobj/fields/base.py b/binobj/fields/base.py
index cbc9b81..307c0af 100644
--- a/binobj/fields/base.py
+++ b/binobj/fields/base.py
@@ -71,6 +71,11 @@ NOT_PRESENT = _NotPresent.token
 T = TypeVar("T")
 
 
+def _always_present(*_args: object) -> bool:
+    """The default for the ``present`` argument of a field."""
+    return True
+
+
 class Field(Generic[T]):
     r"""The base class for all struct fields.
 
@@ -275,7 +280,7 @@ class Field(Generic[T]):
         null_value: Union[bytes, _Default, _Undefined, T] = UNDEFINED,
         size: Union[int, str, Field[int], None] = None,
         validate: Union[FieldValidator, Iterable[FieldValidator]] = (),
-        present: Callable[[StrDict, Any, Optional[BinaryIO]], bool] = (lambda *_: True),
+        present: Callable[[StrDict, Any, Optional[BinaryIO]], bool] = _always_present,
         not_present_value: Union[T, None, _NotPresent] = NOT_PRESENT,
     ):
         self.const = const
@@ -338,6 +343,11 @@ class Field(Generic[T]):
         """
         return isinstance(self.size, int)
 
+    @property
+    def is_always_present(self) -> bool:
+        """Does this field appear in every instance of the struct containing it?"""
+        return self.present is _always_present
+
     def bind_to_container(
         self,
         struct_info: StructMetadata,
diff --git a/binobj/pep526.py b/binobj/pep526.py
index 48b76f5..66f9a1d 100644
--- a/binobj/pep526.py
+++ b/binobj/pep526.py
@@ -257,7 +257,11 @@ def dataclass(class_object: type[TStruct]) -> type[TStruct]:
             raise errors.FieldRedefinedError(struct=class_object.__name__, field=name)
 
         field_instance.bind_to_container(meta, name, field_index, byte_offset)
-        if byte_offset is not None and field_instance.has_fixed_size:
+        if (
+            byte_offset is not None
+            and field_instance.has_fixed_size
+            and field_instance.is_always_present
+        ):
             byte_offset += typing.cast(int, field_instance.size)
         else:
             byte_offset = None
diff --git a/binobj/structures.py b/binobj/structures.py
index 5589aae..a42be18 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -195,7 +195,8 @@ class StructMetadata:
         if field_values is None:
             # A field that isn't of fixed size may still have a default value whose size
             # is known, but that says nothing about the size of its other values.
-            if not all(f.has_fixed_size for f in field_objects):
+            # Likewise, a field that can be absent doesn't always take up its size.
+            if not all(f.has_fixed_size and f.is_always_present for f in field_objects):
                 return None
             field_values = {}
 
@@ -249,7 +250,11 @@ def collect_assigned_fields(
             raise errors.FieldRedefinedError(struct=class_metadata.name, field=item)
 
         item.bind_to_container(class_metadata, item_name, field_index, byte_offset)
-        if byte_offset is not None and item.has_fixed_size:
+        if (
+            byte_offset is not None
+            and item.has_fixed_size
+            and item.is_always_present
+        ):
             byte_offset += typing.cast(int, item.size)
         else:
             byte_offset = None
@@ -767,6 +772,8 @@ class Struct(HasStruct):
         current_fields = self._to_dict_whatever_possible()
 
         for field in self.__binobj_struct__.components.values():
+            if current_fields.get(field.name) is fields.NOT_PRESENT:
+                continue
             if field.has_fixed_size:
                 size += typing.cast(int, field.size)
             else:
@@ -774,7 +781,9 @@ class Struct(HasStruct):
                     size += field.get_expected_size(current_fields)
                 except errors.Error:
                     field_value = field.compute_value_for_dump(current_fields)
-                    size += len(field.to_bytes(field_value))
+                    size += len(
+                        field.to_bytes(field_value, all_fields=current_fields)
+                    )
 
         return size
 
-- 
2.43.0


From 4aad0c6f1a3277c3c1806f98059f719e95555b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:23 +0000
Subject: [PATCH 10/35] fix: to_stream() dumps the assigned values of
 discardable fields and passes the context to present callables

---
 binobj/structures.py | 48 ++++++++++++++++++++++++++++++++------------
 1 file changed, 35 insertions(+), 13 deletions(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index a42be18..e5022e5 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -286,31 +286,48 @@ def bind_validators_to_struct(namespace: StrDict, metadata: StructMetadata) -> N
 
 
 @overload
-def recursive_to_dicts(item: Struct) -> dict[str, Any]: ...
+def recursive_to_dicts(
+    item: Struct, keep_discardable: bool = False, context: object = None
+) -> dict[str, Any]: ...
 
 
 @overload
-def recursive_to_dicts(item: Mapping[K, V]) -> dict[K, V]: ...
+def recursive_to_dicts(
+    item: Mapping[K, V], keep_discardable: bool = False, context: object = None
+) -> dict[K, V]: ...
 
 
 @overload
-def recursive_to_dicts(item: Sequence[T]) -> list[T]: ...
+def recursive_to_dicts(
+    item: Sequence[T], keep_discardable: bool = False, context: object = None
+) -> list[T]: ...
 
 
-def recursive_to_dicts(item: object) -> Any:
+def recursive_to_dicts(
+    item: object, keep_discardable: bool = False, context: object = None
+) -> Any:
     """Ensure that any nested structures are also converted to dictionaries.
 
     This is used when a :class:`Struct` is converted to a dictionary.
 
     :param item:
         Anything. If it's an unsupported type it'll get returned as is.
+    :param bool keep_discardable:
+        If True, don't exclude fields marked with ``discard=True`` from the result.
+    :param context:
+        The context object to use for determining the values of unset fields.
     """
     if isinstance(item, Struct):
-        return item.to_dict()
+        return item._convert_to_dict(keep_discardable, context)  # noqa: SLF001
     if isinstance(item, Mapping):
-        return {recursive_to_dicts(k): recursive_to_dicts(v) for k, v in item.items()}
+        return {
+            recursive_to_dicts(k, keep_discardable, context): recursive_to_dicts(
+                v, keep_discardable, context
+            )
+            for k, v in item.items()
+        }
     if isinstance(item, Sequence) and not isinstance(item, (str, bytes, bytearray)):
-        return [recursive_to_dicts(v) for v in item]
+        return [recursive_to_dicts(v, keep_discardable, context) for v in item]
     return item
 
 
@@ -386,7 +403,7 @@ class Struct(HasStruct):
         # We can't pass `self` to all_fields because Structs can't be used with
         # dictionary expansion (e.g. **kwargs). It'd be a nasty surprise for
         # fields expecting a dictionary.
-        all_fields = self.to_dict()
+        all_fields = self._convert_to_dict(keep_discardable=True, context=context)
 
         for field in self.__binobj_struct__.components.values():
             value = field.compute_value_for_dump(all_fields, context)
@@ -434,10 +451,15 @@ class Struct(HasStruct):
         .. versionchanged:: 0.6.1
             The ``keep_discardable`` argument was added.
         """
-        dct = self._to_dict_whatever_possible()
+        return self._convert_to_dict(keep_discardable)
+
+    def _convert_to_dict(
+        self, keep_discardable: bool, context: object = None
+    ) -> dict[str, Any]:
+        dct = self._to_dict_whatever_possible(context)
         dct.update(
             {
-                field.name: field.compute_value_for_dump(dct)
+                field.name: field.compute_value_for_dump(dct, context)
                 for field in self.__binobj_struct__.components.values()
                 if field.name not in dct
             }
@@ -448,9 +470,9 @@ class Struct(HasStruct):
                 if field.discard:
                     del dct[field.name]
 
-        return recursive_to_dicts(dct)
+        return recursive_to_dicts(dct, keep_discardable, context)
 
-    def _to_dict_whatever_possible(self) -> dict[str, Any]:
+    def _to_dict_whatever_possible(self, context: object = None) -> dict[str, Any]:
         """Convert this struct to a dict, ignoring serialization-related errors.
 
         We use this to get values for all computed fields as well as any fields that
@@ -463,7 +485,7 @@ class Struct(HasStruct):
         for field in self.__binobj_struct__.components.values():
             try:
                 dct[field.name] = field.compute_value_for_dump(
-                    typing.cast(StrDict, self)
+                    typing.cast(StrDict, self), context
                 )
             except (errors.SerializationError, errors.UndefinedSizeError):  # noqa: PERF203
                 pass
-- 
2.43.0


From 64de78092abed77798876e512f176ff0c853fd99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:46 +0000
Subject: [PATCH 11/35] fix: don't call field validators for fields that aren't
 present

---
 binobj/structures.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/binobj/structures.py b/binobj/structures.py
index e5022e5..c8b3646 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -375,6 +375,9 @@ class Struct(HasStruct):
         for f_name, validators in self.__binobj_struct__.field_validators.items():
             f_obj = self.__binobj_struct__.components[f_name]
             value = self[f_name]
+            if value is fields.NOT_PRESENT:
+                # There is no value to validate.
+                continue
 
             # First, invoke the validators defined on the field object.
             for instance_validator in f_obj.validators:
-- 
2.43.0


From 7a5c775628cc3845936133f2fc1e2282085f4eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:48 +0000
Subject: [PATCH 12/35] fix: partial_load() can load fields that depend on a
 discarded field

---
 binobj/structures.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index c8b3646..85159ba 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -649,12 +649,16 @@ class Struct(HasStruct):
                 stream.seek(offset)
                 break
 
-            if not field.discard:
-                result[field.name] = value
+            # Discarded fields must be available to the fields that depend on them.
+            result[field.name] = value
 
             if field.name == last_field:
                 break
 
+        for field in cls.__binobj_struct__.components.values():
+            if field.discard:
+                result.pop(field.name, None)
+
         return cls(**result)
 
     @classmethod
-- 
2.43.0


From 8c78483fd7e7944de068b50f6a936a220d61fd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:51 +0000
Subject: [PATCH 13/35] fix: get_field() loads the fields that the requested
 one depends on

---
 binobj/structures.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index 85159ba..56c409a 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -698,8 +698,12 @@ class Struct(HasStruct):
         original_offset = stream.tell()
 
         # If the field is at a fixed offset from the beginning of the struct, then we
-        # can read and return it directly.
-        if field.offset is not None:
+        # can read and return it directly. Fields of variable size and conditional ones
+        # can depend on the fields before them, so they're only read directly if there
+        # aren't any.
+        if field.offset is not None and (
+            field.index == 0 or (field.has_fixed_size and field.is_always_present)
+        ):
             try:
                 stream.seek(original_offset + field.offset)
                 return field.from_stream(stream, context, {})
-- 
2.43.0


From 9c2c3d19ec9ac3dd7d80d28e30d18c0a42b3cf0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:54 +0000
Subject: [PATCH 14/35] fix: partial_dump() writes computed fields, leaves out
 absent ones and supports fields that depend on others

---
 binobj/structures.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index 56c409a..fefe3ff 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -739,21 +739,29 @@ class Struct(HasStruct):
             Any object containing extra information to pass to the fields'
             :meth:`~binobj.fields.base.Field.from_stream` methods.
         """
-        data = self.__values__
+        all_fields: MutableStrDict = {}
+        for name, value in self._to_dict_whatever_possible(context).items():
+            try:
+                all_fields[name] = recursive_to_dicts(
+                    value, keep_discardable=True, context=context
+                )
+            except errors.MissingRequiredValueError:  # noqa: PERF203
+                # A nested struct that's incomplete. It may not have to be dumped.
+                pass
 
         for field in self.__binobj_struct__.components.values():
-            value = data.get(field.name, field.default)
+            value = all_fields.get(field.name, fields.UNDEFINED)
             if value is fields.UNDEFINED:
                 # Field is missing from the dump data. If the caller wants us to dump
                 # only the fields that're defined, we can bail out now.
                 if last_field is None:
                     return
-                if field.required:
-                    # Caller wants us to dump up to and including ``last_field`` so we
-                    # need to crash.
-                    raise errors.MissingRequiredValueError(field=field)
+                # Caller wants us to dump up to and including ``last_field`` so we need
+                # to crash.
+                raise errors.MissingRequiredValueError(field=field)
 
-            field.to_stream(stream, value, context)
+            if value is not fields.NOT_PRESENT:
+                field.to_stream(stream, value, context, all_fields)
             if field.name == last_field:
                 return
 
-- 
2.43.0


From a19bd60f49dedc768bda9363164adeabbe8a0ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:23 +0000
Subject: [PATCH 15/35] fix: StringZ skips the padding it writes after the
 terminator

---
 binobj/fields/stringlike.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/binobj/fields/stringlike.py b/binobj/fields/stringlike.py
index c41360f..b6f6667 100644
--- a/binobj/fields/stringlike.py
+++ b/binobj/fields/stringlike.py
@@ -177,6 +177,14 @@ class StringZ(String):
                     str(exc), field=self, offset=offset
                 ) from exc
             if char == "\0":
+                if max_bytes is not None and self.pad_byte is not None:
+                    # The string was padded when dumped, so that it takes up exactly
+                    # this many bytes. The next field starts after the padding.
+                    n_padding = max_bytes - n_read
+                    if len(stream.read(n_padding)) < n_padding:
+                        raise errors.UnexpectedEOFError(
+                            field=self, size=max_bytes, offset=offset
+                        )
                 return result.getvalue()
             result.write(char)
 
-- 
2.43.0


From 7f40d22c51c02657b056aaa3d522b0c9b88090f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:47 +0000
Subject: [PATCH 16/35] fix: text that can't be encoded is reported as
 UnserializableValueError

---
 binobj/fields/stringlike.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/binobj/fields/stringlike.py b/binobj/fields/stringlike.py
index b6f6667..8f2548e 100644
--- a/binobj/fields/stringlike.py
+++ b/binobj/fields/stringlike.py
@@ -125,7 +125,7 @@ class String(Field[str]):
         :return: ``string`` encoded as ``size`` bytes.
         :rtype: bytes
         """
-        to_dump = string.encode(self.encoding)
+        to_dump = self._encode(string)
         write_size = self.get_expected_size(all_fields)
 
         size_diff = len(to_dump) - write_size
@@ -140,6 +140,14 @@ class String(Field[str]):
 
         return to_dump
 
+    def _encode(self, string: str) -> bytes:
+        try:
+            return string.encode(self.encoding)
+        except UnicodeError as exc:
+            raise errors.UnserializableValueError(
+                field=self, value=string, reason=str(exc)
+            ) from exc
+
     def _add_padding(self, serialized: bytes, to_size: int) -> bytes:
         if self.pad_byte is None:
             raise errors.ValueSizeError(field=self, value=serialized)
@@ -203,7 +211,7 @@ class StringZ(String):
     def _do_dump(
         self, stream: BinaryIO, data: str, context: object, all_fields: StrDict
     ) -> None:
-        stream.write((data + "\0").encode(self.encoding))
+        stream.write(self._encode(data + "\0"))
 
     def _size_for_value(self, value: str) -> int:
         return len((value + "\0").encode(self.encoding))
-- 
2.43.0


From 05ef20bf38ebe330a3d43e967892ad726317c134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:55 +0000
Subject: [PATCH 17/35] fix: Meta option defaults apply to Float, Timestamp and
 string fields as documented

---
 binobj/fields/numeric.py    | 27 ++++++++++++++++++++++++---
 binobj/fields/stringlike.py | 20 ++++++++++++++++++++
 2 files changed, 44 insertions(+), 3 deletions(-)

diff --git a/binobj/fields/numeric.py b/binobj/fields/numeric.py
index 4af0c30..7b3d17b 100644
--- a/binobj/fields/numeric.py
+++ b/binobj/fields/numeric.py
@@ -23,6 +23,7 @@ if TYPE_CHECKING:  # pragma: no cover
     from typing import Final
     from typing import Optional
 
+    from binobj.structures import StructMetadata
     from binobj.typedefs import EndianString
     from binobj.typedefs import StrDict
     from binobj.varints import VarIntEncoding
@@ -69,6 +70,8 @@ class Float(Field[float]):
     .. _format character: https://docs.python.org/3/library/struct.html#format-characters
     """
 
+    __overrideable_attributes__ = ("endian",)
+
     def __init__(
         self,
         *,
@@ -79,13 +82,29 @@ class Float(Field[float]):
         super().__init__(size=struct.calcsize(format_string), **kwargs)
 
         self.endian = endian or sys.byteorder
+        self._format_code = format_string
+        self._set_format_string()
+
+    @override
+    def bind_to_container(
+        self,
+        struct_info: StructMetadata,
+        name: str,
+        index: int,
+        offset: Optional[int] = None,
+    ) -> None:
+        super().bind_to_container(struct_info, name, index, offset)
+        # The struct may have its own default for `endian`.
+        self._set_format_string()
+
+    def _set_format_string(self) -> None:
         if self.endian == "big":
-            self.format_string = ">" + format_string
+            self.format_string = ">" + self._format_code
         elif self.endian == "little":
-            self.format_string = "<" + format_string
+            self.format_string = "<" + self._format_code
         else:
             raise errors.ConfigurationError(
-                f"`endian` must be 'big' or 'little', got {endian!r}.", field=self
+                f"`endian` must be 'big' or 'little', got {self.endian!r}.", field=self
             )
 
     @override
@@ -394,6 +413,8 @@ class Timestamp(Field[datetime.datetime]):
     .. seealso:: :class:`.Timestamp32`, :class:`.Timestamp64`
     """
 
+    __overrideable_attributes__ = ("endian",)
+
     _RESOLUTION_UNITS: Final = {"s": 1, "ms": 1e3, "us": 1e6, "ns": 1e9}
 
     def __init__(
diff --git a/binobj/fields/stringlike.py b/binobj/fields/stringlike.py
index 8f2548e..8d26280 100644
--- a/binobj/fields/stringlike.py
+++ b/binobj/fields/stringlike.py
@@ -13,6 +13,7 @@ from typing_extensions import override
 from binobj import errors
 from binobj import helpers
 from binobj.fields.base import Field
+from binobj.fields.base import UNDEFINED
 
 
 if TYPE_CHECKING:  # pragma: no cover
@@ -20,6 +21,7 @@ if TYPE_CHECKING:  # pragma: no cover
     from typing import BinaryIO
     from typing import Optional
 
+    from binobj.structures import StructMetadata
     from binobj.typedefs import StrDict
 
 
@@ -77,6 +79,8 @@ class String(Field[str]):
     .. _ISO 8859-1: https://en.wikipedia.org/wiki/ISO/IEC_8859-1
     """
 
+    __overrideable_attributes__ = ("encoding",)
+
     def __init__(
         self,
         *,
@@ -98,6 +102,22 @@ class String(Field[str]):
         self.pad_byte = pad_byte
         super().__init__(**kwargs)
 
+    @override
+    def bind_to_container(
+        self,
+        struct_info: StructMetadata,
+        name: str,
+        index: int,
+        offset: Optional[int] = None,
+    ) -> None:
+        super().bind_to_container(struct_info, name, index, offset)
+        if self.const is not UNDEFINED and (
+            "size" not in self.__explicit_init_args__
+        ):
+            # The size was derived from the constant, and the struct may have its own
+            # default for `encoding`.
+            self._size = self._size_for_value(self.const)
+
     @override
     def _do_load(
         self, stream: BinaryIO, context: object, loaded_fields: StrDict
-- 
2.43.0


From c0fe716d46ab23fe304f04d841c33a105e4bdecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:18 +0000
Subject: [PATCH 18/35] fix: dataclass structs can inherit from dataclass
 structs, whose fields come first

---
 binobj/pep526.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/binobj/pep526.py b/binobj/pep526.py
index 66f9a1d..626d790 100644
--- a/binobj/pep526.py
+++ b/binobj/pep526.py
@@ -221,12 +221,18 @@ def dataclass(class_object: type[TStruct]) -> type[TStruct]:
     if meta.num_own_fields > 0:
         raise errors.MixedDeclarationsError(struct=class_object)
 
-    field_index = 0
+    # The fields of the parent struct, if there is one, come first.
+    field_index = len(meta.components)
     n_fields_found = 0
-    byte_offset = meta.size_bytes
+    byte_offset = meta.get_size()
     all_annotations = typing.get_type_hints(class_object, include_extras=True)
+    own_annotations = vars(class_object).get("__annotations__", {})
 
     for name, raw_annotation in all_annotations.items():
+        if name in meta.components and name not in own_annotations:
+            # This is the declaration of a field in the parent struct.
+            continue
+
         flattened_annotations = flatten_annotations(raw_annotation)
 
         info_list = [
-- 
2.43.0


From 3d5ada527c858275b53ecb0dd71fbdc3f56f009f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:25 +0000
Subject: [PATCH 19/35] fix: validators and validator methods work in dataclass
 structs

---
 binobj/pep526.py     | 12 ++++++++++++
 binobj/structures.py |  9 +++++++++
 2 files changed, 21 insertions(+)

diff --git a/binobj/pep526.py b/binobj/pep526.py
index 626d790..f2d20ae 100644
--- a/binobj/pep526.py
+++ b/binobj/pep526.py
@@ -42,6 +42,7 @@ from typing import Optional
 from typing import TypeVar
 from typing import Union
 
+from binobj import decorators
 from binobj import errors
 from binobj import fields
 from binobj.structures import Struct
@@ -224,6 +225,7 @@ def dataclass(class_object: type[TStruct]) -> type[TStruct]:
     # The fields of the parent struct, if there is one, come first.
     field_index = len(meta.components)
     n_fields_found = 0
+    new_names: set[str] = set()
     byte_offset = meta.get_size()
     all_annotations = typing.get_type_hints(class_object, include_extras=True)
     own_annotations = vars(class_object).get("__annotations__", {})
@@ -273,6 +275,8 @@ def dataclass(class_object: type[TStruct]) -> type[TStruct]:
             byte_offset = None
 
         meta.components[name] = field_instance
+        meta.field_validators[name] = []
+        new_names.add(name)
         field_index += 1
         n_fields_found += 1
 
@@ -288,6 +292,14 @@ def dataclass(class_object: type[TStruct]) -> type[TStruct]:
     if n_fields_found == 0:
         raise errors.NoDefinedFieldsError(struct=class_object)
 
+    # Attach the validator methods of the new fields. Those of inherited fields are
+    # already in place.
+    for item in vars(class_object).values():
+        if isinstance(item, decorators.ValidatorMethodWrapper):
+            for field_name in item.field_names:
+                if field_name in new_names or field_name not in meta.field_validators:
+                    meta.field_validators[field_name].append(item)
+
     meta.size_bytes = byte_offset
     meta.num_own_fields = n_fields_found
     return class_object
diff --git a/binobj/structures.py b/binobj/structures.py
index fefe3ff..5ac9a05 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -271,6 +271,8 @@ def bind_validators_to_struct(namespace: StrDict, metadata: StructMetadata) -> N
 
     .. versionadded:: 0.9.0
     """
+    annotations = namespace.get("__annotations__", {})
+
     for item in namespace.values():
         if not isinstance(item, decorators.ValidatorMethodWrapper):
             continue
@@ -278,6 +280,13 @@ def bind_validators_to_struct(namespace: StrDict, metadata: StructMetadata) -> N
         if item.field_names:
             # Attach this validator to each named field.
             for field_name in item.field_names:
+                if (
+                    field_name in annotations
+                    and field_name not in metadata.field_validators
+                ):
+                    # The field will only exist once the `dataclass` decorator has been
+                    # applied to the struct, which then attaches the validator to it.
+                    continue
                 metadata.field_validators[field_name].append(item)
         else:
             # Validator doesn't define any fields, must be a validator for the entire
-- 
2.43.0


From 4576c99bd477111aa34fb7e65903cbc8d1c6823b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:27 +0000
Subject: [PATCH 20/35] fix: defaults and Optional apply to field instances and
 structs in dataclass annotations

---
 binobj/pep526.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/binobj/pep526.py b/binobj/pep526.py
index f2d20ae..5b4abfe 100644
--- a/binobj/pep526.py
+++ b/binobj/pep526.py
@@ -154,15 +154,17 @@ class AnnotationInfo:
         """Convert a type annotation to a Field object if it represents one."""
         if isinstance(self.type_class, type):
             # We got a class object. Could be a struct or field, ignore everything else.
+            kw: dict[str, Any]
+            kw = {"null_value": fields.DEFAULT} if self.nullable else {}
+
             if issubclass(self.type_class, Struct):
                 # A Struct class is shorthand for Nested(Struct).
-                return fields.Nested(self.type_class)
+                return fields.Nested(
+                    self.type_class, name=self.name, default=self.default_value, **kw
+                )
             if issubclass(self.type_class, fields.Field):
                 # This is a Field class. Initialize it with only the arguments we're
                 # certain of. This gives us a Field instance.
-                kw: dict[str, Any]
-                kw = {"null_value": fields.DEFAULT} if self.nullable else {}
-
                 return self.type_class(name=self.name, default=self.default_value, **kw)
 
             # Else: Not a struct or field class -- ignore
@@ -173,6 +175,14 @@ class AnnotationInfo:
             return None
 
         # Else: The annotation is a field instance.
+        if self.nullable and self.type_class.null_value is fields.UNDEFINED:
+            self.type_class.null_value = fields.DEFAULT
+        if self.has_default and self.type_class.const is fields.UNDEFINED:
+            if callable(self.default_value):
+                self.type_class.factory = self.default_value
+            else:
+                self.type_class.factory = None
+                self.type_class._default = self.default_value  # noqa: SLF001
         return self.type_class
 
 
-- 
2.43.0


From 380ccc95e36f8a9dc27c39c6ec2287d0dd57b460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:45 +0000
Subject: [PATCH 21/35] fix: timestamps are converted with exact integer
 arithmetic, and library errors are raised if they're out of range

---
 binobj/fields/numeric.py | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/binobj/fields/numeric.py b/binobj/fields/numeric.py
index 7b3d17b..80be11d 100644
--- a/binobj/fields/numeric.py
+++ b/binobj/fields/numeric.py
@@ -362,6 +362,9 @@ class UInt64(Int64):
         super().__init__(signed=False, **kwargs)
 
 
+_EPOCH = datetime.datetime(1970, 1, 1, tzinfo=datetime.timezone.utc)
+
+
 class Timestamp(Field[datetime.datetime]):
     r"""A timestamp stored as an integer offset from the `Unix epoch`_.
 
@@ -415,7 +418,7 @@ class Timestamp(Field[datetime.datetime]):
 
     __overrideable_attributes__ = ("endian",)
 
-    _RESOLUTION_UNITS: Final = {"s": 1, "ms": 1e3, "us": 1e6, "ns": 1e9}
+    _RESOLUTION_UNITS: Final = {"s": 1, "ms": 10**3, "us": 10**6, "ns": 10**9}
 
     def __init__(
         self,
@@ -449,11 +452,17 @@ class Timestamp(Field[datetime.datetime]):
         value = helpers.read_int(
             stream, self.get_expected_size(loaded_fields), self.signed, self.endian
         )
-        if not self.tz_aware:
-            return datetime.datetime.fromtimestamp(value / self._units)
-        return datetime.datetime.fromtimestamp(
-            value / self._units, datetime.timezone.utc
-        )
+        # Use integers only, floats can't represent all timestamps exactly.
+        microseconds = value * 10**6 // self._units
+        try:
+            loaded = _EPOCH + datetime.timedelta(microseconds=microseconds)
+            if self.tz_aware:
+                return loaded
+            return loaded.astimezone().replace(tzinfo=None)
+        except (ValueError, OverflowError, OSError) as err:
+            raise errors.DeserializationError(
+                f"{self} can't represent the timestamp {value}: {err}", field=self
+            ) from err
 
     @override
     def _do_dump(
@@ -478,8 +487,13 @@ class Timestamp(Field[datetime.datetime]):
                 stacklevel=2,
             )
 
-        timestamp = int(data.timestamp() * self._units)
         try:
+            # Use integers only, floats can't represent all timestamps exactly.
+            delta = data.astimezone(datetime.timezone.utc) - _EPOCH
+            microseconds = delta // datetime.timedelta(microseconds=1)
+            timestamp = abs(microseconds) * self._units // 10**6
+            if microseconds < 0:
+                timestamp = -timestamp
             helpers.write_int(
                 stream,
                 timestamp,
@@ -487,7 +501,7 @@ class Timestamp(Field[datetime.datetime]):
                 self.signed,
                 self.endian,
             )
-        except (ValueError, OverflowError) as err:
+        except (ValueError, OverflowError, OSError) as err:
             # https://en.wikipedia.org/wiki/Year_2038_problem
             raise errors.UnserializableValueError(
                 field=self, value=data, reason=str(err)
-- 
2.43.0


From e901b37045309325fafe613584da1dafbd0eb261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:23 +0000
Subject: [PATCH 22/35] fix: LEB128 encodes powers of two like -64 in as few
 bytes as possible

---
 binobj/varints.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/binobj/varints.py b/binobj/varints.py
index b8d06c6..7b25692 100644
--- a/binobj/varints.py
+++ b/binobj/varints.py
@@ -214,9 +214,10 @@ def encode_integer_leb128(value: int) -> bytes:
 
     # Calculate the number of bits in the integer and round up to the nearest multiple
     # of 7. We need to add 1 bit because bit_length() only returns the number of bits
-    # required to encode the magnitude, but not the sign.
+    # required to encode the magnitude, but not the sign. In two's complement, a negative
+    # number takes up as many bits as its complement.
 
-    n_bits = value.bit_length() + 1
+    n_bits = (value if value >= 0 else ~value).bit_length() + 1
     if n_bits % 7:
         n_bits += 7 - (n_bits % 7)
 
-- 
2.43.0


From b3ff59d0004181c975269a87db949c0fd1ff75aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:04 +0000
Subject: [PATCH 23/35] fix: reading an integer of negative size is an error,
 not a read up to EOF

---
 binobj/helpers.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/binobj/helpers.py b/binobj/helpers.py
index 183934c..694e7cd 100644
--- a/binobj/helpers.py
+++ b/binobj/helpers.py
@@ -45,6 +45,12 @@ def read_int(
         endian = sys.byteorder
 
     offset = stream.tell()
+    if n_bytes < 0:
+        # read() would take a negative size to mean "everything up to EOF".
+        raise errors.DeserializationError(
+            f"Can't read {n_bytes} bytes at offset {offset}.", offset=offset
+        )
+
     data = stream.read(n_bytes)
     if len(data) < n_bytes:
         raise errors.UnexpectedEOFError(field=None, size=n_bytes, offset=offset)
-- 
2.43.0


From af3ebaa370806fbaa90892913459bcd79233f1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:20 +0000
Subject: [PATCH 24/35] fix: pass the context on when validating unset fields
 before dumping

---
 binobj/structures.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index 5ac9a05..bad53f6 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -374,16 +374,24 @@ class Struct(HasStruct):
 
         self.__values__ = values
 
-    def validate_contents(self) -> None:
+    def validate_contents(self, context: object = None) -> None:
         """Validate the stored values in this struct.
 
+        :param context:
+            The context object the struct is being loaded or dumped with. It's needed to
+            determine the values of unset fields.
         :raise ~binobj.errors.ValidationError: Validation failed.
 
         .. versionadded:: 0.4.0
         """
         for f_name, validators in self.__binobj_struct__.field_validators.items():
             f_obj = self.__binobj_struct__.components[f_name]
-            value = self[f_name]
+            if f_name in self.__values__:
+                value = self[f_name]
+            else:
+                value = f_obj.compute_value_for_dump(
+                    typing.cast(StrDict, self), context
+                )
             if value is fields.NOT_PRESENT:
                 # There is no value to validate.
                 continue
@@ -410,7 +418,7 @@ class Struct(HasStruct):
             Additional data to pass to this method. Subclasses must ignore anything they
             don't recognize.
         """
-        self.validate_contents()
+        self.validate_contents(context)
 
         # We can't pass `self` to all_fields because Structs can't be used with
         # dictionary expansion (e.g. **kwargs). It'd be a nasty surprise for
@@ -551,7 +559,7 @@ class Struct(HasStruct):
             results.setdefault(name, field.from_stream(stream, context, results))
 
         instance = cls(**results)
-        instance.validate_contents()
+        instance.validate_contents(context)
 
         for field in cls.__binobj_struct__.components.values():
             if field.discard:
-- 
2.43.0


From a9422206bbdc81ac4946f15cf14ac99863f419db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:11 +0000
Subject: [PATCH 25/35] fix: a union can dump the struct instance it has loaded

---
 binobj/fields/containers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/binobj/fields/containers.py b/binobj/fields/containers.py
index 7b3b290..53bdfc7 100644
--- a/binobj/fields/containers.py
+++ b/binobj/fields/containers.py
@@ -23,6 +23,7 @@ from binobj import errors
 from binobj.fields.base import Field
 from binobj.fields.base import maybe_assign_name
 from binobj.fields.base import NOT_PRESENT
+from binobj.structures import recursive_to_dicts
 from binobj.structures import Struct
 from binobj.typedefs import StrDict
 
@@ -475,6 +476,9 @@ class Union(Field[Any]):
         if isinstance(dumper, Field):
             dumper.to_stream(stream, data, context, all_fields)
         elif issubclass(dumper, Struct):
+            if isinstance(data, Struct):
+                # This is what loading gives for this choice.
+                data = recursive_to_dicts(data, keep_discardable=True, context=context)
             if not isinstance(data, Mapping):
                 raise TypeError(
                     f"Cannot dump a non-Mapping-like object as a {dumper!r}: {data!r}",
-- 
2.43.0


From 368e9345aa5c6d68e79ecd7b223b3e14b8cc9baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:19 +0000
Subject: [PATCH 26/35] fix: comparing a struct with unset variable-length
 fields doesn't crash

---
 binobj/structures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index bad53f6..ab6743b 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -859,12 +859,12 @@ class Struct(HasStruct):
 
         # Compare only defined values by using __iter__ to get the keys that are
         # defined.
-        self_values = recursive_to_dicts({n: self[n] for n in list(self)})
+        self_values = recursive_to_dicts({n: self[n] for n in self})
 
         if not isinstance(other, (Struct, Mapping)):
             return False
 
-        other_values = recursive_to_dicts({n: other[n] for n in list(other)})
+        other_values = recursive_to_dicts({n: other[n] for n in other})
         return other_values == self_values
 
     def __bytes__(self) -> bytes:
-- 
2.43.0


From dfe885b5ed7cdf7176837045a1ae7e69912f541e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:04 +0000
Subject: [PATCH 27/35] fix: a null value shorter than its field is padded like
 any other value

---
 binobj/fields/base.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/binobj/fields/base.py b/binobj/fields/base.py
index 307c0af..35d6fbc 100644
--- a/binobj/fields/base.py
+++ b/binobj/fields/base.py
@@ -959,7 +959,14 @@ class Field(Generic[T]):
                 context=None,
                 all_fields=all_fields,
             )
-            return buf.getvalue()
+            null_repr = buf.getvalue()
+
+            if self.size is not None:
+                expected_size = self.get_expected_size(all_fields)
+                if len(null_repr) < expected_size:
+                    # Shorter than the field, just like any other value could be.
+                    return self._add_padding(null_repr, expected_size)
+            return null_repr
 
         # User wants us to use all null bytes for the default null value.
         try:
-- 
2.43.0


From 4dbdfda65212e26f303195b9a1ea2a97be0a32bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:05 +0000
Subject: [PATCH 28/35] fix: dumping None for an unsized field with the default
 null value reports the right error

---
 binobj/fields/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/binobj/fields/base.py b/binobj/fields/base.py
index 35d6fbc..7a02ce0 100644
--- a/binobj/fields/base.py
+++ b/binobj/fields/base.py
@@ -646,6 +646,9 @@ class Field(Generic[T]):
 
         try:
             if value is None:
+                if self.null_value is DEFAULT:
+                    # The size of the default null value is the one we're looking for.
+                    raise errors.UndefinedSizeError(field=self)
                 return len(self._get_null_repr(field_values))
 
             # If we get here then we have a value to get the size of. If that size can't
-- 
2.43.0


From 0cf1403df4efcb5b8464aae671025532e0c7578e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:09 +0000
Subject: [PATCH 29/35] fix: const can be given for arrays, nested structs and
 unions

---
 binobj/fields/base.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/binobj/fields/base.py b/binobj/fields/base.py
index 7a02ce0..dd43dca 100644
--- a/binobj/fields/base.py
+++ b/binobj/fields/base.py
@@ -319,9 +319,8 @@ class Field(Generic[T]):
         self.offset: Optional[int] = None
         self._compute_fn = None
 
-        if size is not None or const is UNDEFINED:
-            self._size = size
-        else:
+        self._size = size
+        if size is None and const is not UNDEFINED:
             self._size = self._size_for_value(const)
 
     @property
-- 
2.43.0


From 7a6283ebdf8bac41107af809cb9d6242e4d5867c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:05 +0000
Subject: [PATCH 30/35] fix: to_dict reports the missing value that a computed
 field depends on

---
 binobj/structures.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index ab6743b..2380501 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -477,11 +477,18 @@ class Struct(HasStruct):
         self, keep_discardable: bool, context: object = None
     ) -> dict[str, Any]:
         dct = self._to_dict_whatever_possible(context)
+        missing_fields = [
+            field
+            for field in self.__binobj_struct__.components.values()
+            if field.name not in dct
+        ]
+        # The values of computed fields depend on other fields, so if one of those is
+        # missing we need to find out first.
+        missing_fields.sort(key=lambda field: field.is_computed_field)
         dct.update(
             {
                 field.name: field.compute_value_for_dump(dct, context)
-                for field in self.__binobj_struct__.components.values()
-                if field.name not in dct
+                for field in missing_fields
             }
         )
 
-- 
2.43.0


From 216d88e4e4bd46ae61942581f20ebe5b9480eb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:50 +0000
Subject: [PATCH 31/35] fix: union can dump the null value of the field it
 loaded it with

---
 binobj/fields/base.py       | 13 ++++++++++++-
 binobj/fields/containers.py | 12 ++++++++++++
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/binobj/fields/base.py b/binobj/fields/base.py
index dd43dca..3c8849d 100644
--- a/binobj/fields/base.py
+++ b/binobj/fields/base.py
@@ -836,7 +836,7 @@ class Field(Generic[T]):
             validator(data)
 
         if data is None:
-            stream.write(self._get_null_repr(all_fields))
+            self._dump_null(stream, context, all_fields)
             return
 
         buf = io.BytesIO()
@@ -861,6 +861,17 @@ class Field(Generic[T]):
 
         stream.write(serialized_value)
 
+    def _dump_null(
+        self, stream: BinaryIO, context: object, all_fields: StrDict  # noqa: ARG002
+    ) -> None:
+        """Write the serialized value for ``None`` to the byte stream.
+
+        :param BinaryIO stream: The stream to write to.
+        :param context: The context object the field is being dumped with.
+        :param dict all_fields: A dictionary of the fields about to be dumped.
+        """
+        stream.write(self._get_null_repr(all_fields))
+
     def _add_padding(self, serialized: bytes, to_size: int) -> bytes:  # noqa: ARG002
         """Given a serialized value, pad it out with bytes to the exact given length.
 
diff --git a/binobj/fields/containers.py b/binobj/fields/containers.py
index 53bdfc7..2546ed1 100644
--- a/binobj/fields/containers.py
+++ b/binobj/fields/containers.py
@@ -468,6 +468,18 @@ class Union(Field[Any]):
         self.load_decider = load_decider
         self.dump_decider = dump_decider
 
+    @override
+    def _dump_null(
+        self, stream: BinaryIO, context: object, all_fields: StrDict
+    ) -> None:
+        if not self.allow_null:
+            # The union itself isn't nullable but the field used for dumping can be.
+            dumper = self.dump_decider(None, self.choices, context, all_fields)
+            if isinstance(dumper, Field):
+                dumper.to_stream(stream, None, context, all_fields)
+                return
+        super()._dump_null(stream, context, all_fields)
+
     @override
     def _do_dump(
         self, stream: BinaryIO, data: Any, context: object, all_fields: StrDict
-- 
2.43.0


From 0d08f304d87860fb063435b8e2c463537b497ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:40 +0000
Subject: [PATCH 32/35] fix: X | None annotations declare a field, like
 Optional[X]

---
 binobj/pep526.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/binobj/pep526.py b/binobj/pep526.py
index 5b4abfe..61d4d7e 100644
--- a/binobj/pep526.py
+++ b/binobj/pep526.py
@@ -35,6 +35,7 @@ Here are a few examples of how you can declare your fields::
 from __future__ import annotations
 
 import dataclasses
+import types
 import typing
 import warnings
 from typing import Any
@@ -112,10 +113,11 @@ class AnnotationInfo:
         type_args = typing.get_args(annotation)
         nullable = type(None) in type_args
 
-        # Handle Optional[T] which gets rendered as Union[T, type(None)].
+        # Handle Optional[T] which gets rendered as Union[T, type(None)]. `T | None` has a
+        # type of its own (Python 3.10+).
         # We have to compare types directly with `is` because the type annotations don't
         # support isinstance() and issubclass().
-        if typing.get_origin(type_class) is Union:
+        if typing.get_origin(type_class) in (Union, getattr(types, "UnionType", Union)):
             # Filter out None from the type arguments.
             type_args = tuple(t for t in type_args if t is not type(None))
 
-- 
2.43.0


From 2a2ec066b4fd8e99b86c7766004cabc3ef2eda3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:49 +0000
Subject: [PATCH 33/35] fix: a union only asks its dump decider about None if
 one of its choices is nullable

---
 binobj/fields/containers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/binobj/fields/containers.py b/binobj/fields/containers.py
index 2546ed1..1c2a046 100644
--- a/binobj/fields/containers.py
+++ b/binobj/fields/containers.py
@@ -472,7 +472,10 @@ class Union(Field[Any]):
     def _dump_null(
         self, stream: BinaryIO, context: object, all_fields: StrDict
     ) -> None:
-        if not self.allow_null:
+        if not self.allow_null and any(
+            isinstance(c, Union) or (isinstance(c, Field) and c.allow_null)
+            for c in self.choices
+        ):
             # The union itself isn't nullable but the field used for dumping can be.
             dumper = self.dump_decider(None, self.choices, context, all_fields)
             if isinstance(dumper, Field):
-- 
2.43.0


From 6e64a0aef9304d3b4fab19836f5ec0c9ea54eb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:11 +0000
Subject: [PATCH 34/35] fix: a struct loaded without its discarded fields can
 be converted to a dictionary

---
 binobj/structures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index 2380501..0187a46 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -480,7 +480,7 @@ class Struct(HasStruct):
         missing_fields = [
             field
             for field in self.__binobj_struct__.components.values()
-            if field.name not in dct
+            if field.name not in dct and (keep_discardable or not field.discard)
         ]
         # The values of computed fields depend on other fields, so if one of those is
         # missing we need to find out first.
@@ -495,7 +495,7 @@ class Struct(HasStruct):
         if not keep_discardable:
             for field in self.__binobj_struct__.components.values():
                 if field.discard:
-                    del dct[field.name]
+                    dct.pop(field.name, None)
 
         return recursive_to_dicts(dct, keep_discardable, context)
 
-- 
2.43.0


From 148c40be2693de56b9fddf318241d8635065b8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:53 +0000
Subject: [PATCH 35/35] fix: name the offending struct when it has several
 struct bases

---
 binobj/structures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index 0187a46..2acf367 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -119,7 +119,7 @@ class StructMetadata:
         ]
 
         if len(struct_bases) > 1:
-            raise errors.MultipleInheritanceError(struct=cls.__name__)
+            raise errors.MultipleInheritanceError(struct=struct_class.__name__)
 
         metadata = cls(name=struct_class.__name__)
         namespace = vars(struct_class)
-- 
2.43.0

