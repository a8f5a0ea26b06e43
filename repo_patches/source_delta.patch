From 3a656e04f03c5f6f2889e02624fb0869ae52e858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:44 +0000
Subject: [PATCH 01/35] fix: Struct.from_bytes(exact=True) accepted one
 trailing byte

---
 binobj/structures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index 64bdb03..d8b13c9 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -551,9 +551,9 @@ class Struct(HasStruct):
         loaded_data = cls.from_stream(stream, context, init_kwargs)
 
         here = stream.tell()
-        if exact and (here < len(data) - 1):
+        if exact and here < len(data):
             raise errors.ExtraneousDataError(
-                f"Read {here + 1} bytes, but there are {len(data)} in the input data.",
+                f"Read {here} bytes, but there are {len(data)} in the input data.",
                 offset=stream.tell(),
             )
         return loaded_data
-- 
2.43.0


From 3a0db35bd485eb2ddb9602a1c40ca23b4817099a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:13 +0000
Subject: [PATCH 02/35] fix: StringZ raises UnexpectedEOFError on truncated
 input, and its default doesn't cap its length

---
 binobj/fields/stringlike.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/binobj/fields/stringlike.py b/binobj/fields/stringlike.py
index 36ef36c..d6afa79 100644
--- a/binobj/fields/stringlike.py
+++ b/binobj/fields/stringlike.py
@@ -159,25 +159,31 @@ class StringZ(String):
     def _do_load(
         self, stream: BinaryIO, context: object, loaded_fields: StrDict
     ) -> str:
-        max_bytes: Optional[int]
-        try:
+        # Only an explicit size limits how much we can read. In particular, the size of
+        # the default value says nothing about the size of the string in the stream.
+        max_bytes: Optional[int] = None
+        if self.size is not None:
             max_bytes = self.get_expected_size(loaded_fields)
-        except errors.UndefinedSizeError:
-            max_bytes = None
 
-        iterator = helpers.iter_bytes(stream, max_bytes)
-        reader = codecs.iterdecode(iterator, self.encoding)
+        offset = stream.tell()
+        decoder = codecs.getincrementaldecoder(self.encoding)()
         result = io.StringIO()
+        n_read = 0
 
-        for char in reader:
+        for byte in helpers.iter_bytes(stream, max_bytes):
+            n_read += 1
+            char = decoder.decode(byte)
             if char == "\0":
                 return result.getvalue()
             result.write(char)
 
+        if max_bytes is not None and n_read >= max_bytes:
+            raise errors.DeserializationError(
+                "Read the entire field without finding the trailing null.", field=self
+            )
+
         # If we get out here then we hit EOF before getting to the null terminator.
-        raise errors.DeserializationError(
-            "Hit EOF before finding the trailing null.", field=self
-        )
+        raise errors.UnexpectedEOFError(field=self, size=n_read + 1, offset=offset)
 
     @override
     def _do_dump(
-- 
2.43.0


From 58abf28eb083dac34152ce1db9e31e8343bef3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:01 +0000
Subject: [PATCH 03/35] fix: a sized StringZ always consumes its entire size
 when loading

---
 binobj/fields/stringlike.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/binobj/fields/stringlike.py b/binobj/fields/stringlike.py
index d6afa79..3d825b4 100644
--- a/binobj/fields/stringlike.py
+++ b/binobj/fields/stringlike.py
@@ -174,16 +174,27 @@ class StringZ(String):
             n_read += 1
             char = decoder.decode(byte)
             if char == "\0":
-                return result.getvalue()
+                break
             result.write(char)
+        else:
+            if max_bytes is not None and n_read >= max_bytes:
+                raise errors.DeserializationError(
+                    "Read the entire field without finding the trailing null.",
+                    field=self,
+                )
 
-        if max_bytes is not None and n_read >= max_bytes:
-            raise errors.DeserializationError(
-                "Read the entire field without finding the trailing null.", field=self
-            )
+            # If we get out here then we hit EOF before getting to the null terminator.
+            raise errors.UnexpectedEOFError(field=self, size=n_read + 1, offset=offset)
 
-        # If we get out here then we hit EOF before getting to the null terminator.
-        raise errors.UnexpectedEOFError(field=self, size=n_read + 1, offset=offset)
+        # If the field has an explicit size then it always occupies that many bytes, so
+        # skip over the padding after the terminator.
+        if max_bytes is not None:
+            padding = stream.read(max_bytes - n_read)
+            if len(padding) < max_bytes - n_read:
+                raise errors.UnexpectedEOFError(
+                    field=self, size=max_bytes, offset=offset
+                )
+        return result.getvalue()
 
     @override
     def _do_dump(
-- 
2.43.0


From 7eab1db7fd34238caffaa3a27ca7dba6ece79862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:29 +0000
Subject: [PATCH 04/35] fix: short reads and short writes on raw streams lost
 data

---
 binobj/fields/base.py       |  6 +++---
 binobj/fields/stringlike.py |  4 ++--
 binobj/helpers.py           | 34 +++++++++++++++++++++++++++++++---
 3 files changed, 36 insertions(+), 8 deletions(-)

diff --git a/binobj/fields/base.py b/binobj/fields/base.py
index 07f7fc7..2e2d1b3 100644
--- a/binobj/fields/base.py
+++ b/binobj/fields/base.py
@@ -824,7 +824,7 @@ class Field(Generic[T]):
             validator(data)
 
         if data is None:
-            stream.write(self._get_null_repr(all_fields))
+            helpers.write_fully(stream, self._get_null_repr(all_fields))
             return
 
         buf = io.BytesIO()
@@ -847,7 +847,7 @@ class Field(Generic[T]):
         if size_diff < 0:
             serialized_value = self._add_padding(serialized_value, expected_size)
 
-        stream.write(serialized_value)
+        helpers.write_fully(stream, serialized_value)
 
     def _add_padding(self, serialized: bytes, to_size: int) -> bytes:  # noqa: ARG002
         """Given a serialized value, pad it out with bytes to the exact given length.
@@ -989,7 +989,7 @@ class Field(Generic[T]):
         offset = stream.tell()
         n_bytes = self.get_expected_size(loaded_fields)
 
-        data_read = stream.read(n_bytes)
+        data_read = helpers.read_fully(stream, n_bytes)
         if len(data_read) < n_bytes:
             raise errors.UnexpectedEOFError(field=self, size=n_bytes, offset=offset)
 
diff --git a/binobj/fields/stringlike.py b/binobj/fields/stringlike.py
index 3d825b4..b6a91da 100644
--- a/binobj/fields/stringlike.py
+++ b/binobj/fields/stringlike.py
@@ -189,7 +189,7 @@ class StringZ(String):
         # If the field has an explicit size then it always occupies that many bytes, so
         # skip over the padding after the terminator.
         if max_bytes is not None:
-            padding = stream.read(max_bytes - n_read)
+            padding = helpers.read_fully(stream, max_bytes - n_read)
             if len(padding) < max_bytes - n_read:
                 raise errors.UnexpectedEOFError(
                     field=self, size=max_bytes, offset=offset
@@ -263,7 +263,7 @@ class UUID4(Field[uuid.UUID]):
     def _do_load(
         self, stream: BinaryIO, context: object, loaded_fields: StrDict
     ) -> Optional[uuid.UUID]:
-        raw_data = stream.read(self.size)
+        raw_data = helpers.read_fully(stream, self.size)
         if len(raw_data) < self.size:
             raise errors.UnexpectedEOFError(
                 field=self, size=self.size, offset=stream.tell()
diff --git a/binobj/helpers.py b/binobj/helpers.py
index 183934c..9f177ee 100644
--- a/binobj/helpers.py
+++ b/binobj/helpers.py
@@ -16,6 +16,34 @@ if TYPE_CHECKING:  # pragma: no cover
     from binobj.typedefs import EndianString
 
 
+def read_fully(stream: BinaryIO, n_bytes: int) -> bytes:
+    """Read ``n_bytes`` bytes from the stream, or everything up to EOF.
+
+    Unlike :meth:`io.RawIOBase.read`, this only returns fewer bytes than requested if it
+    hit EOF. A single read isn't enough for raw streams such as unbuffered files, pipes,
+    or sockets.
+    """
+    data = stream.read(n_bytes)
+    while data and len(data) < n_bytes:
+        more = stream.read(n_bytes - len(data))
+        if not more:
+            break
+        data += more
+    return data
+
+
+def write_fully(stream: BinaryIO, data: bytes) -> None:
+    """Write all of ``data`` to the stream.
+
+    Raw streams such as unbuffered files can accept only part of the data they're given;
+    in that case, keep writing until nothing's left.
+    """
+    n_written = stream.write(data)
+    while n_written is not None and 0 < n_written < len(data):
+        data = data[n_written:]
+        n_written = stream.write(data)
+
+
 def read_int(
     stream: BinaryIO,
     n_bytes: int,
@@ -45,7 +73,7 @@ def read_int(
         endian = sys.byteorder
 
     offset = stream.tell()
-    data = stream.read(n_bytes)
+    data = read_fully(stream, n_bytes)
     if len(data) < n_bytes:
         raise errors.UnexpectedEOFError(field=None, size=n_bytes, offset=offset)
 
@@ -85,7 +113,7 @@ def write_int(
     if not endian:
         endian = sys.byteorder
 
-    stream.write(value.to_bytes(n_bytes, endian, signed=signed))
+    write_fully(stream, value.to_bytes(n_bytes, endian, signed=signed))
 
 
 def iter_bytes(stream: BinaryIO, max_bytes: Optional[int] = None) -> Iterator[bytes]:
@@ -115,7 +143,7 @@ def peek_bytes(stream: BinaryIO, count: int, short_read_okay: bool = True) -> by
     """
     here = stream.tell()
     try:
-        data = stream.read(count)
+        data = read_fully(stream, count)
     finally:
         stream.seek(here)
 
-- 
2.43.0


From c5e67eb3cad4bd0ad49a338073430e5c96feb581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:52 +0000
Subject: [PATCH 05/35] fix: a negative size from a size field swallowed the
 rest of the stream

---
 binobj/fields/base.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/binobj/fields/base.py b/binobj/fields/base.py
index 2e2d1b3..0cc9037 100644
--- a/binobj/fields/base.py
+++ b/binobj/fields/base.py
@@ -988,6 +988,13 @@ class Field(Generic[T]):
 
         offset = stream.tell()
         n_bytes = self.get_expected_size(loaded_fields)
+        if n_bytes < 0:
+            # Reading a negative number of bytes would swallow the rest of the stream.
+            raise errors.DeserializationError(
+                f"Can't read a field with a negative size: {n_bytes}",
+                field=self,
+                offset=offset,
+            )
 
         data_read = helpers.read_fully(stream, n_bytes)
         if len(data_read) < n_bytes:
-- 
2.43.0


From 13bac7358906ea9af6f33ab9361cbe314501eb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:06 +0000
Subject: [PATCH 06/35] fix: fields with a factory couldn't be dumped by a
 struct

---
 binobj/fields/base.py |  2 +-
 binobj/structures.py  | 25 +++++++++++++++++++++++++
 2 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/binobj/fields/base.py b/binobj/fields/base.py
index 0cc9037..c7829ea 100644
--- a/binobj/fields/base.py
+++ b/binobj/fields/base.py
@@ -440,7 +440,7 @@ class Field(Generic[T]):
         if self.name in all_values:
             # The value is already set in the struct so we don't need to do anything.
             value_to_dump = all_values[self.name]
-        elif self._default is not UNDEFINED:
+        elif self._default is not UNDEFINED or self.factory is not None:
             # The value is *not* set in the struct. Either this field must have a
             # default value, or it must be a computed field. Check for default values
             # here.
diff --git a/binobj/structures.py b/binobj/structures.py
index d8b13c9..ddc737c 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -372,6 +372,7 @@ class Struct(HasStruct):
             Additional data to pass to this method. Subclasses must ignore anything they
             don't recognize.
         """
+        self = self._with_factory_defaults()  # noqa: PLW0642
         self.validate_contents()
 
         # We can't pass `self` to all_fields because Structs can't be used with
@@ -425,6 +426,7 @@ class Struct(HasStruct):
         .. versionchanged:: 0.6.1
             The ``keep_discardable`` argument was added.
         """
+        self = self._with_factory_defaults()  # noqa: PLW0642
         dct = self._to_dict_whatever_possible()
         dct.update(
             {
@@ -441,6 +443,28 @@ class Struct(HasStruct):
 
         return recursive_to_dicts(dct)
 
+    def _with_factory_defaults(self) -> Self:
+        """Get an equivalent struct with the missing values made by factories filled in.
+
+        A factory can return something different every time it's called (e.g. the
+        current time or a random ID), so it must be called only once when dumping.
+        Otherwise, validators and computed fields could see a different value than the
+        one that's written. This struct itself isn't modified.
+        """
+        missing = {
+            field.name: value
+            for field in self.__binobj_struct__.components.values()
+            if field.factory is not None
+            and field.name not in self.__values__
+            and (value := field.default) is not fields.UNDEFINED
+        }
+        if not missing:
+            return self
+
+        instance = copy.copy(self)
+        instance.__values__ = {**self.__values__, **missing}
+        return instance
+
     def _to_dict_whatever_possible(self) -> dict[str, Any]:
         """Convert this struct to a dict, ignoring serialization-related errors.
 
@@ -760,6 +784,7 @@ class Struct(HasStruct):
 
     def __len__(self) -> int:
         size = 0
+        self = self._with_factory_defaults()  # noqa: PLW0642
         current_fields = self._to_dict_whatever_possible()
 
         for field in self.__binobj_struct__.components.values():
-- 
2.43.0


From 49b5769a7f624ebce7ac4d5f34c7e1ee93a604e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:29 +0000
Subject: [PATCH 07/35] fix: explicit values of discardable fields were ignored
 when dumping

---
 binobj/structures.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index ddc737c..fa2c477 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -288,20 +288,25 @@ def recursive_to_dicts(item: Mapping[K, V]) -> dict[K, V]: ...
 def recursive_to_dicts(item: Sequence[T]) -> list[T]: ...
 
 
-def recursive_to_dicts(item: object) -> Any:
+def recursive_to_dicts(item: object, keep_discardable: bool = False) -> Any:
     """Ensure that any nested structures are also converted to dictionaries.
 
     This is used when a :class:`Struct` is converted to a dictionary.
 
     :param item:
         Anything. If it's an unsupported type it'll get returned as is.
+    :param bool keep_discardable:
+        If True, don't exclude fields marked with ``discard=True`` from nested structs.
     """
     if isinstance(item, Struct):
-        return item.to_dict()
+        return item.to_dict(keep_discardable)
     if isinstance(item, Mapping):
-        return {recursive_to_dicts(k): recursive_to_dicts(v) for k, v in item.items()}
+        return {
+            recursive_to_dicts(k): recursive_to_dicts(v, keep_discardable)
+            for k, v in item.items()
+        }
     if isinstance(item, Sequence) and not isinstance(item, (str, bytes, bytearray)):
-        return [recursive_to_dicts(v) for v in item]
+        return [recursive_to_dicts(v, keep_discardable) for v in item]
     return item
 
 
@@ -377,8 +382,9 @@ class Struct(HasStruct):
 
         # We can't pass `self` to all_fields because Structs can't be used with
         # dictionary expansion (e.g. **kwargs). It'd be a nasty surprise for
-        # fields expecting a dictionary.
-        all_fields = self.to_dict()
+        # fields expecting a dictionary. Discardable fields are only dropped when
+        # loading, so they must be included here.
+        all_fields = self.to_dict(keep_discardable=True)
 
         for field in self.__binobj_struct__.components.values():
             value = field.compute_value_for_dump(all_fields, context)
@@ -441,7 +447,7 @@ class Struct(HasStruct):
                 if field.discard:
                     del dct[field.name]
 
-        return recursive_to_dicts(dct)
+        return recursive_to_dicts(dct, keep_discardable)
 
     def _with_factory_defaults(self) -> Self:
         """Get an equivalent struct with the missing values made by factories filled in.
-- 
2.43.0


From 46fa0f7029d0860e4535999acc5367956e5ff890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:37 +0000
Subject: [PATCH 08/35] fix: fields present only for some contexts were always
 omitted when dumping

---
 binobj/structures.py | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index fa2c477..569fd15 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -288,7 +288,9 @@ def recursive_to_dicts(item: Mapping[K, V]) -> dict[K, V]: ...
 def recursive_to_dicts(item: Sequence[T]) -> list[T]: ...
 
 
-def recursive_to_dicts(item: object, keep_discardable: bool = False) -> Any:
+def recursive_to_dicts(
+    item: object, keep_discardable: bool = False, context: object = None
+) -> Any:
     """Ensure that any nested structures are also converted to dictionaries.
 
     This is used when a :class:`Struct` is converted to a dictionary.
@@ -297,16 +299,18 @@ def recursive_to_dicts(item: object, keep_discardable: bool = False) -> Any:
         Anything. If it's an unsupported type it'll get returned as is.
     :param bool keep_discardable:
         If True, don't exclude fields marked with ``discard=True`` from nested structs.
+    :param context:
+        The context object to convert nested structs with.
     """
     if isinstance(item, Struct):
-        return item.to_dict(keep_discardable)
+        return item.to_dict(keep_discardable, context)
     if isinstance(item, Mapping):
         return {
-            recursive_to_dicts(k): recursive_to_dicts(v, keep_discardable)
+            recursive_to_dicts(k): recursive_to_dicts(v, keep_discardable, context)
             for k, v in item.items()
         }
     if isinstance(item, Sequence) and not isinstance(item, (str, bytes, bytearray)):
-        return [recursive_to_dicts(v, keep_discardable) for v in item]
+        return [recursive_to_dicts(v, keep_discardable, context) for v in item]
     return item
 
 
@@ -384,7 +388,7 @@ class Struct(HasStruct):
         # dictionary expansion (e.g. **kwargs). It'd be a nasty surprise for
         # fields expecting a dictionary. Discardable fields are only dropped when
         # loading, so they must be included here.
-        all_fields = self.to_dict(keep_discardable=True)
+        all_fields = self.to_dict(keep_discardable=True, context=context)
 
         for field in self.__binobj_struct__.components.values():
             value = field.compute_value_for_dump(all_fields, context)
@@ -405,7 +409,9 @@ class Struct(HasStruct):
         self.to_stream(stream, context)
         return stream.getvalue()
 
-    def to_dict(self, keep_discardable: bool = False) -> dict[str, Any]:
+    def to_dict(
+        self, keep_discardable: bool = False, context: object = None
+    ) -> dict[str, Any]:
         """Convert this struct into an ordered dictionary.
 
         The primary use for this method is converting a loaded :class:`Struct` into
@@ -414,6 +420,8 @@ class Struct(HasStruct):
 
         :param bool keep_discardable:
             If True, don't exclude fields marked with ``discard=True`` from the result.
+        :param context:
+            The context object to pass to the fields' ``present`` callables.
 
         :rtype: Dict[str, Any]
 
@@ -433,10 +441,10 @@ class Struct(HasStruct):
             The ``keep_discardable`` argument was added.
         """
         self = self._with_factory_defaults()  # noqa: PLW0642
-        dct = self._to_dict_whatever_possible()
+        dct = self._to_dict_whatever_possible(context)
         dct.update(
             {
-                field.name: field.compute_value_for_dump(dct)
+                field.name: field.compute_value_for_dump(dct, context)
                 for field in self.__binobj_struct__.components.values()
                 if field.name not in dct
             }
@@ -447,7 +455,7 @@ class Struct(HasStruct):
                 if field.discard:
                     del dct[field.name]
 
-        return recursive_to_dicts(dct, keep_discardable)
+        return recursive_to_dicts(dct, keep_discardable, context)
 
     def _with_factory_defaults(self) -> Self:
         """Get an equivalent struct with the missing values made by factories filled in.
@@ -471,7 +479,7 @@ class Struct(HasStruct):
         instance.__values__ = {**self.__values__, **missing}
         return instance
 
-    def _to_dict_whatever_possible(self) -> dict[str, Any]:
+    def _to_dict_whatever_possible(self, context: object = None) -> dict[str, Any]:
         """Convert this struct to a dict, ignoring serialization-related errors.
 
         We use this to get values for all computed fields as well as any fields that
@@ -484,7 +492,7 @@ class Struct(HasStruct):
         for field in self.__binobj_struct__.components.values():
             try:
                 dct[field.name] = field.compute_value_for_dump(
-                    typing.cast(StrDict, self)
+                    typing.cast(StrDict, self), context
                 )
             except (errors.SerializationError, errors.UndefinedSizeError):  # noqa: PERF203
                 pass
-- 
2.43.0


From b82066c15f03b696d76a7b8d264fed83ffbea614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:40 +0000
Subject: [PATCH 09/35] fix: don't validate fields that aren't present

---
 binobj/structures.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/binobj/structures.py b/binobj/structures.py
index 569fd15..9c127f2 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -358,6 +358,10 @@ class Struct(HasStruct):
         for f_name, validators in self.__binobj_struct__.field_validators.items():
             f_obj = self.__binobj_struct__.components[f_name]
             value = self[f_name]
+            if value is fields.NOT_PRESENT:
+                # There's nothing to validate, and the validators can't be expected to
+                # handle the sentinel value.
+                continue
 
             # First, invoke the validators defined on the field object.
             for instance_validator in f_obj.validators:
-- 
2.43.0


From 7f88bc0211030ca3785267d34e4f6e1b8969df20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:36 +0000
Subject: [PATCH 10/35] fix: sub-second timestamps lost precision to
 floating-point rounding

---
 binobj/fields/numeric.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/binobj/fields/numeric.py b/binobj/fields/numeric.py
index 45a4eb5..56fee6b 100644
--- a/binobj/fields/numeric.py
+++ b/binobj/fields/numeric.py
@@ -52,6 +52,8 @@ __all__ = [
 
 FloatFormat = Literal["e", "f", "d"]
 
+_EPOCH = datetime.datetime(1970, 1, 1, tzinfo=datetime.timezone.utc)
+
 
 class Float(Field[float]):
     """A floating-point number in IEEE-754:2008 interchange format.
@@ -394,7 +396,7 @@ class Timestamp(Field[datetime.datetime]):
     .. seealso:: :class:`.Timestamp32`, :class:`.Timestamp64`
     """
 
-    _RESOLUTION_UNITS: Final = {"s": 1, "ms": 1e3, "us": 1e6, "ns": 1e9}
+    _RESOLUTION_UNITS: Final = {"s": 1, "ms": 10**3, "us": 10**6, "ns": 10**9}
 
     def __init__(
         self,
@@ -428,11 +430,13 @@ class Timestamp(Field[datetime.datetime]):
         value = helpers.read_int(
             stream, self.get_expected_size(loaded_fields), self.signed, self.endian
         )
-        if not self.tz_aware:
-            return datetime.datetime.fromtimestamp(value / self._units)
-        return datetime.datetime.fromtimestamp(
-            value / self._units, datetime.timezone.utc
+        # Don't use floating-point math here, a float can't represent most sub-second
+        # timestamps exactly.
+        seconds, fraction = divmod(value, self._units)
+        loaded = datetime.datetime.fromtimestamp(
+            seconds, datetime.timezone.utc if self.tz_aware else None
         )
+        return loaded.replace(microsecond=fraction * 10**6 // self._units)
 
     @override
     def _do_dump(
@@ -457,7 +461,12 @@ class Timestamp(Field[datetime.datetime]):
                 stacklevel=2,
             )
 
-        timestamp = int(data.timestamp() * self._units)
+        # Don't use floating-point math on the fraction of a second, see _do_load().
+        aware = data if data.utcoffset() is not None else data.astimezone()
+        microseconds = (aware - _EPOCH) // datetime.timedelta(microseconds=1)
+        timestamp = abs(microseconds) * self._units // 10**6
+        if microseconds < 0:
+            timestamp = -timestamp
         try:
             helpers.write_int(
                 stream,
-- 
2.43.0


From 57519cef3c872effd49f0713ca239f4db76480d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:31 +0000
Subject: [PATCH 11/35] fix: absent fields were counted in sizes and offsets,
 and len() failed for fields depending on others

---
 binobj/fields/base.py | 14 +++++++++++++-
 binobj/pep526.py      |  6 +++++-
 binobj/structures.py  | 18 ++++++++++++++++--
 3 files changed, 34 insertions(+), 4 deletions(-)

diff --git a/binobj/fields/base.py b/binobj/fields/base.py
index c7829ea..b4c84d6 100644
--- a/binobj/fields/base.py
+++ b/binobj/fields/base.py
@@ -71,6 +71,10 @@ NOT_PRESENT = _NotPresent.token
 T = TypeVar("T")
 
 
+def _always_present(*_: object) -> bool:
+    return True
+
+
 class Field(Generic[T]):
     r"""The base class for all struct fields.
 
@@ -275,7 +279,7 @@ class Field(Generic[T]):
         null_value: Union[bytes, _Default, _Undefined, T] = UNDEFINED,
         size: Union[int, str, Field[int], None] = None,
         validate: Union[FieldValidator, Iterable[FieldValidator]] = (),
-        present: Callable[[StrDict, Any, Optional[BinaryIO]], bool] = (lambda *_: True),
+        present: Callable[[StrDict, Any, Optional[BinaryIO]], bool] = _always_present,
         not_present_value: Union[T, None, _NotPresent] = NOT_PRESENT,
     ):
         self.const = const
@@ -338,6 +342,14 @@ class Field(Generic[T]):
         """
         return isinstance(self.size, int)
 
+    @property
+    def is_conditional(self) -> bool:
+        """Can this field be missing from the serialized data (see ``present``)?
+
+        A conditional field can take up no space at all, even if it has a fixed size.
+        """
+        return self.present is not _always_present
+
     def bind_to_container(
         self,
         struct_info: StructMetadata,
diff --git a/binobj/pep526.py b/binobj/pep526.py
index 48b76f5..221a1f1 100644
--- a/binobj/pep526.py
+++ b/binobj/pep526.py
@@ -257,7 +257,11 @@ def dataclass(class_object: type[TStruct]) -> type[TStruct]:
             raise errors.FieldRedefinedError(struct=class_object.__name__, field=name)
 
         field_instance.bind_to_container(meta, name, field_index, byte_offset)
-        if byte_offset is not None and field_instance.has_fixed_size:
+        if (
+            byte_offset is not None
+            and field_instance.has_fixed_size
+            and not field_instance.is_conditional
+        ):
             byte_offset += typing.cast(int, field_instance.size)
         else:
             byte_offset = None
diff --git a/binobj/structures.py b/binobj/structures.py
index 9c127f2..9a47da0 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -195,6 +195,9 @@ class StructMetadata:
             field_values = {}
 
         field_objects = self.components.values()
+        if any(f.is_conditional for f in field_objects):
+            return None
+
         try:
             return sum(f.get_expected_size(field_values) for f in field_objects)
         except (errors.UndefinedSizeError, errors.MissingRequiredValueError):
@@ -245,7 +248,11 @@ def collect_assigned_fields(
             raise errors.FieldRedefinedError(struct=class_metadata.name, field=item)
 
         item.bind_to_container(class_metadata, item_name, field_index, byte_offset)
-        if byte_offset is not None and item.has_fixed_size:
+        if (
+            byte_offset is not None
+            and item.has_fixed_size
+            and not item.is_conditional
+        ):
             byte_offset += typing.cast(int, item.size)
         else:
             byte_offset = None
@@ -806,6 +813,8 @@ class Struct(HasStruct):
         current_fields = self._to_dict_whatever_possible()
 
         for field in self.__binobj_struct__.components.values():
+            if current_fields.get(field.name) is fields.NOT_PRESENT:
+                continue
             if field.has_fixed_size:
                 size += typing.cast(int, field.size)
             else:
@@ -813,7 +822,12 @@ class Struct(HasStruct):
                     size += field.get_expected_size(current_fields)
                 except errors.Error:
                     field_value = field.compute_value_for_dump(current_fields)
-                    size += len(field.to_bytes(field_value))
+                    size += len(
+                        field.to_bytes(
+                            field_value,
+                            all_fields=recursive_to_dicts(current_fields, True),
+                        )
+                    )
 
         return size
 
-- 
2.43.0


From 0a6f6bc3cc22e6fc7640983e8f167dc5a233c41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:10 +0000
Subject: [PATCH 12/35] fix: partial_dump ignored computed and absent fields,
 and couldn't dump fields depending on others

---
 binobj/structures.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index 9a47da0..19b2aa9 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -746,21 +746,23 @@ class Struct(HasStruct):
             Any object containing extra information to pass to the fields'
             :meth:`~binobj.fields.base.Field.from_stream` methods.
         """
-        data = self.__values__
+        self = self._with_factory_defaults()  # noqa: PLW0642
+        all_fields = self._to_dict_whatever_possible(context)
 
         for field in self.__binobj_struct__.components.values():
-            value = data.get(field.name, field.default)
+            value = all_fields.get(field.name, fields.UNDEFINED)
             if value is fields.UNDEFINED:
                 # Field is missing from the dump data. If the caller wants us to dump
                 # only the fields that're defined, we can bail out now.
                 if last_field is None:
                     return
-                if field.required:
-                    # Caller wants us to dump up to and including ``last_field`` so we
-                    # need to crash.
-                    raise errors.MissingRequiredValueError(field=field)
+                # Caller wants us to dump up to and including ``last_field`` so we need
+                # to crash.
+                raise errors.MissingRequiredValueError(field=field)
 
-            field.to_stream(stream, value, context)
+            if value is not fields.NOT_PRESENT:
+                all_fields[field.name] = recursive_to_dicts(value, True, context)
+                field.to_stream(stream, all_fields[field.name], context, all_fields)
             if field.name == last_field:
                 return
 
-- 
2.43.0


From 1cc5590987b4a8488527cac015ec7f1b45190643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:44 +0000
Subject: [PATCH 13/35] fix: partial loads and get_field lost discardable
 fields

---
 binobj/structures.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index 19b2aa9..dc3c7fd 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -646,6 +646,23 @@ class Struct(HasStruct):
                 f"{cls.__name__} doesn't have a field named {last_field!r}."
             )
 
+        # Discarded fields can't be dropped any earlier because other fields may depend
+        # on their values.
+        instance = cls(**cls._partial_load_values(stream, last_field, context))
+        for field in cls.__binobj_struct__.components.values():
+            if field.discard:
+                del instance[field.name]
+
+        return instance
+
+    @classmethod
+    def _partial_load_values(
+        cls, stream: BinaryIO, last_field: Optional[str], context: object
+    ) -> MutableStrDict:
+        """Load the values of all fields for :meth:`partial_load`.
+
+        This includes fields marked with ``discard=True``.
+        """
         result: MutableStrDict = {}
 
         for field in cls.__binobj_struct__.components.values():
@@ -664,13 +681,11 @@ class Struct(HasStruct):
                 stream.seek(offset)
                 break
 
-            if not field.discard:
-                result[field.name] = value
-
+            result[field.name] = value
             if field.name == last_field:
                 break
 
-        return cls(**result)
+        return result
 
     @classmethod
     def get_field(cls, stream: BinaryIO, name: str, context: object = None) -> Any:
@@ -722,7 +737,7 @@ class Struct(HasStruct):
         # result in validation errors if there is data before the desired field that's
         # invalid.
         try:
-            loaded_data = cls.partial_load(stream, name, context)
+            loaded_data = cls._partial_load_values(stream, name, context)
         finally:
             stream.seek(original_offset)
         return loaded_data[name]
-- 
2.43.0


From 893a378e770eb4d9177360f90f4916b2872f289d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:55 +0000
Subject: [PATCH 14/35] fix: get_field couldn't load fixed-offset fields that
 depend on other fields

---
 binobj/fields/base.py       |  5 +++++
 binobj/fields/containers.py | 16 ++++++++++++++++
 binobj/structures.py        |  6 +++---
 3 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/binobj/fields/base.py b/binobj/fields/base.py
index b4c84d6..7f2f0ca 100644
--- a/binobj/fields/base.py
+++ b/binobj/fields/base.py
@@ -350,6 +350,11 @@ class Field(Generic[T]):
         """
         return self.present is not _always_present
 
+    @property
+    def is_self_contained(self) -> bool:
+        """Can this field be loaded without knowing the values of any other fields?"""
+        return not self.is_conditional and not isinstance(self.size, (str, Field))
+
     def bind_to_container(
         self,
         struct_info: StructMetadata,
diff --git a/binobj/fields/containers.py b/binobj/fields/containers.py
index 61954ee..5715685 100644
--- a/binobj/fields/containers.py
+++ b/binobj/fields/containers.py
@@ -117,6 +117,16 @@ class Array(Field[list[Optional[T]]]):
         if isinstance(self.count, int) and component.has_fixed_size:
             self._size = self.count * typing.cast(int, component.size)
 
+    @property
+    @override
+    def is_self_contained(self) -> bool:
+        return (
+            super().is_self_contained
+            and self.component.is_self_contained
+            and not isinstance(self.count, (str, Field))
+            and self.halt_check is Array.should_halt
+        )
+
     def get_final_element_count(self, field_values: StrDict) -> Optional[int]:
         """Calculate the number of elements in the array based on other fields' values.
 
@@ -467,6 +477,12 @@ class Union(Field[Any]):
         self.load_decider = load_decider
         self.dump_decider = dump_decider
 
+    @property
+    @override
+    def is_self_contained(self) -> bool:
+        # The load decider can base its decision on other fields.
+        return False
+
     @override
     def _do_dump(
         self, stream: BinaryIO, data: Any, context: object, all_fields: StrDict
diff --git a/binobj/structures.py b/binobj/structures.py
index dc3c7fd..17f6c88 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -724,8 +724,8 @@ class Struct(HasStruct):
         original_offset = stream.tell()
 
         # If the field is at a fixed offset from the beginning of the struct, then we
-        # can read and return it directly.
-        if field.offset is not None:
+        # can read and return it directly, unless it needs the fields before it.
+        if field.offset is not None and field.is_self_contained:
             try:
                 stream.seek(original_offset + field.offset)
                 return field.from_stream(stream, context, {})
@@ -733,7 +733,7 @@ class Struct(HasStruct):
                 stream.seek(original_offset)
 
         # If we get here then the field is *not* at a fixed offset from the beginning of
-        # the struct, and we have to read everything up to it. This can unfortunately
+        # the struct or depends on others, and we have to read everything up to it. This can unfortunately
         # result in validation errors if there is data before the desired field that's
         # invalid.
         try:
-- 
2.43.0


From be0dbcf1b4213a2f2fab406051daa6dac16fe1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:08 +0000
Subject: [PATCH 15/35] fix: validators and constants of a union's fields were
 ignored when loading

---
 binobj/fields/containers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binobj/fields/containers.py b/binobj/fields/containers.py
index 5715685..2e11405 100644
--- a/binobj/fields/containers.py
+++ b/binobj/fields/containers.py
@@ -508,7 +508,7 @@ class Union(Field[Any]):
     ) -> Any:
         loader = self.load_decider(stream, self.choices, context, loaded_fields)
         if isinstance(loader, Field):
-            return loader._do_load(stream, context, loaded_fields)  # noqa: SLF001
+            return loader.from_stream(stream, context, loaded_fields)
         if isinstance(loader, type) and issubclass(loader, Struct):
             return loader.from_stream(stream, context)
         raise TypeError(
-- 
2.43.0


From 6ee953acbcd47ec6aa825b3309e4fe6c232b8126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:32 +0000
Subject: [PATCH 16/35] fix: dataclass fields of a subclass were laid out on
 top of the inherited fields

---
 binobj/pep526.py     | 2 +-
 binobj/structures.py | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/binobj/pep526.py b/binobj/pep526.py
index 221a1f1..cd91a39 100644
--- a/binobj/pep526.py
+++ b/binobj/pep526.py
@@ -221,7 +221,7 @@ def dataclass(class_object: type[TStruct]) -> type[TStruct]:
     if meta.num_own_fields > 0:
         raise errors.MixedDeclarationsError(struct=class_object)
 
-    field_index = 0
+    field_index = len(meta.components)
     n_fields_found = 0
     byte_offset = meta.size_bytes
     all_annotations = typing.get_type_hints(class_object, include_extras=True)
diff --git a/binobj/structures.py b/binobj/structures.py
index 17f6c88..5e65279 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -153,6 +153,10 @@ class StructMetadata:
             # at offset 0. There are no field or struct validators to copy.
             byte_offset = 0
 
+        # Fields declared with PEP 526 annotations haven't been collected yet and come
+        # after any inherited fields.
+        metadata.size_bytes = byte_offset
+
         metadata.field_validators.update(
             {
                 name: []
-- 
2.43.0


From 280f892717d7b1509e29be2aee2934000b832504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:35 +0000
Subject: [PATCH 17/35] fix: validator methods couldn't be declared in
 dataclass structs

---
 binobj/pep526.py     | 1 +
 binobj/structures.py | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/binobj/pep526.py b/binobj/pep526.py
index cd91a39..4561a07 100644
--- a/binobj/pep526.py
+++ b/binobj/pep526.py
@@ -267,6 +267,7 @@ def dataclass(class_object: type[TStruct]) -> type[TStruct]:
             byte_offset = None
 
         meta.components[name] = field_instance
+        meta.field_validators.setdefault(name, [])
         field_index += 1
         n_fields_found += 1
 
diff --git a/binobj/structures.py b/binobj/structures.py
index 5e65279..1bee3ad 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -280,6 +280,9 @@ def bind_validators_to_struct(namespace: StrDict, metadata: StructMetadata) -> N
         if item.field_names:
             # Attach this validator to each named field.
             for field_name in item.field_names:
+                if field_name in namespace.get("__annotations__", ()):
+                    # This is a PEP 526 declaration, which hasn't been collected yet.
+                    metadata.field_validators.setdefault(field_name, [])
                 metadata.field_validators[field_name].append(item)
         else:
             # Validator doesn't define any fields, must be a validator for the entire
-- 
2.43.0


From 509000280f0a440f8c86d3c9b78bde97e33685c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:38 +0000
Subject: [PATCH 18/35] fix: dataclass structs couldn't inherit from other
 dataclass structs

---
 binobj/pep526.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/binobj/pep526.py b/binobj/pep526.py
index 4561a07..7f1731a 100644
--- a/binobj/pep526.py
+++ b/binobj/pep526.py
@@ -226,7 +226,13 @@ def dataclass(class_object: type[TStruct]) -> type[TStruct]:
     byte_offset = meta.size_bytes
     all_annotations = typing.get_type_hints(class_object, include_extras=True)
 
+    own_annotations = vars(class_object).get("__annotations__", {})
+
     for name, raw_annotation in all_annotations.items():
+        if name not in own_annotations:
+            # This was declared in a superclass, which already collected it.
+            continue
+
         flattened_annotations = flatten_annotations(raw_annotation)
 
         info_list = [
-- 
2.43.0


From 96ec40d1327f1f17f751b260649976a1c36e1bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:25 +0000
Subject: [PATCH 19/35] fix: the default of a variable-length field was taken
 for the size of all its values

Struct.get_size() gave the size of the default value, so nested structs couldn't be
dumped with any longer value, and fields of subclasses got a bogus fixed offset.
---
 binobj/structures.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/binobj/structures.py b/binobj/structures.py
index 1bee3ad..8cef1c0 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -202,6 +202,11 @@ class StructMetadata:
         if any(f.is_conditional for f in field_objects):
             return None
 
+        # The default value of a variable-length field says nothing about the size of
+        # the values it'll actually have.
+        if any(f.size is None and f.name not in field_values for f in field_objects):
+            return None
+
         try:
             return sum(f.get_expected_size(field_values) for f in field_objects)
         except (errors.UndefinedSizeError, errors.MissingRequiredValueError):
-- 
2.43.0


From eaa25b1159bd7a31b155c0d5ce770c05903abd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:21 +0000
Subject: [PATCH 20/35] fix: to_dict() failed for loaded structs because their
 discarded fields have no value

This also affected comparing structs with nested structs, and loading nullable ones.
---
 binobj/structures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index 8cef1c0..4b18ec2 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -469,14 +469,14 @@ class Struct(HasStruct):
             {
                 field.name: field.compute_value_for_dump(dct, context)
                 for field in self.__binobj_struct__.components.values()
-                if field.name not in dct
+                if field.name not in dct and (keep_discardable or not field.discard)
             }
         )
 
         if not keep_discardable:
             for field in self.__binobj_struct__.components.values():
                 if field.discard:
-                    del dct[field.name]
+                    dct.pop(field.name, None)
 
         return recursive_to_dicts(dct, keep_discardable, context)
 
-- 
2.43.0


From e607b0102f26bc7e94b4906d98ea6f1003220040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:39 +0000
Subject: [PATCH 21/35] fix: len() failed for structs with a struct instance in
 a union

---
 binobj/structures.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index 4b18ec2..2506eab 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -850,13 +850,10 @@ class Struct(HasStruct):
                 try:
                     size += field.get_expected_size(current_fields)
                 except errors.Error:
-                    field_value = field.compute_value_for_dump(current_fields)
-                    size += len(
-                        field.to_bytes(
-                            field_value,
-                            all_fields=recursive_to_dicts(current_fields, True),
-                        )
-                    )
+                    # As when dumping, nested structs must be dictionaries by now.
+                    all_fields = recursive_to_dicts(current_fields, True)
+                    field_value = field.compute_value_for_dump(all_fields)
+                    size += len(field.to_bytes(field_value, all_fields=all_fields))
 
         return size
 
-- 
2.43.0


From 78b87267ae48905d6326c610d7a8f59826b1f26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:27 +0000
Subject: [PATCH 22/35] fix: comparing structs failed if a variable-length
 field wasn't set

---
 binobj/structures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index 2506eab..66bf3c3 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -871,12 +871,12 @@ class Struct(HasStruct):
 
         # Compare only defined values by using __iter__ to get the keys that are
         # defined.
-        self_values = recursive_to_dicts({n: self[n] for n in list(self)})
+        self_values = recursive_to_dicts({n: self[n] for n in self})
 
         if not isinstance(other, (Struct, Mapping)):
             return False
 
-        other_values = recursive_to_dicts({n: other[n] for n in list(other)})
+        other_values = recursive_to_dicts({n: other[n] for n in other})
         return other_values == self_values
 
     def __bytes__(self) -> bytes:
-- 
2.43.0


From b73aa059aaf3ec321353e7d2f59360c52fdf55cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:53 +0000
Subject: [PATCH 23/35] fix: a corrupted size crashed with MemoryError or
 OverflowError instead of hitting EOF

---
 binobj/helpers.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/binobj/helpers.py b/binobj/helpers.py
index 9f177ee..81a6386 100644
--- a/binobj/helpers.py
+++ b/binobj/helpers.py
@@ -16,20 +16,29 @@ if TYPE_CHECKING:  # pragma: no cover
     from binobj.typedefs import EndianString
 
 
+MAX_READ_SIZE = 1 << 20
+"""The maximum number of bytes requested from a stream at once."""
+
+
 def read_fully(stream: BinaryIO, n_bytes: int) -> bytes:
     """Read ``n_bytes`` bytes from the stream, or everything up to EOF.
 
     Unlike :meth:`io.RawIOBase.read`, this only returns fewer bytes than requested if it
     hit EOF. A single read isn't enough for raw streams such as unbuffered files, pipes,
     or sockets.
+
+    Large reads are split up, since streams tend to allocate as much memory as they're
+    asked to read. A corrupted size is supposed to hit EOF, not to exhaust the memory.
     """
-    data = stream.read(n_bytes)
-    while data and len(data) < n_bytes:
-        more = stream.read(n_bytes - len(data))
-        if not more:
+    chunks = []
+    remaining = n_bytes
+    while remaining > 0:
+        chunk = stream.read(min(remaining, MAX_READ_SIZE))
+        if not chunk:
             break
-        data += more
-    return data
+        chunks.append(chunk)
+        remaining -= len(chunk)
+    return b"".join(chunks)
 
 
 def write_fully(stream: BinaryIO, data: bytes) -> None:
-- 
2.43.0


From e171c5149a4596e7553321eca632a4c81a574b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:46 +0000
Subject: [PATCH 24/35] fix: const arrays and nested structs couldn't be
 declared

---
 binobj/fields/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binobj/fields/base.py b/binobj/fields/base.py
index 7f2f0ca..a6fce47 100644
--- a/binobj/fields/base.py
+++ b/binobj/fields/base.py
@@ -578,7 +578,7 @@ class Field(Generic[T]):
         """
         # Since this is called in the constructor we need to check to see if _size has
         # been assigned to yet.
-        if self.has_fixed_size and hasattr(self, "_size"):
+        if hasattr(self, "_size") and self.has_fixed_size:
             return typing.cast(int, self._size)
         return None
 
-- 
2.43.0


From a9ce0a89eeee4005bfc147235e7d846eb9d55abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:53 +0000
Subject: [PATCH 25/35] fix: the default and nullability of annotated nested
 structs were ignored

A dataclass field annotated with a Struct class, like 'x: Optional[Sub]' or
'x: Sub = value', was neither nullable nor had it a default.
---
 binobj/pep526.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/binobj/pep526.py b/binobj/pep526.py
index 7f1731a..36059fa 100644
--- a/binobj/pep526.py
+++ b/binobj/pep526.py
@@ -149,20 +149,24 @@ class AnnotationInfo:
             nullable=nullable,
         )
 
+    def _field_arguments(self) -> dict[str, Any]:
+        """Get the constructor arguments the declaration implies for a field."""
+        kw: dict[str, Any] = {"name": self.name, "default": self.default_value}
+        if self.nullable:
+            kw["null_value"] = fields.DEFAULT
+        return kw
+
     def make_field_instance(self) -> Optional[Field[Any]]:
         """Convert a type annotation to a Field object if it represents one."""
         if isinstance(self.type_class, type):
             # We got a class object. Could be a struct or field, ignore everything else.
             if issubclass(self.type_class, Struct):
                 # A Struct class is shorthand for Nested(Struct).
-                return fields.Nested(self.type_class)
+                return fields.Nested(self.type_class, **self._field_arguments())
             if issubclass(self.type_class, fields.Field):
                 # This is a Field class. Initialize it with only the arguments we're
                 # certain of. This gives us a Field instance.
-                kw: dict[str, Any]
-                kw = {"null_value": fields.DEFAULT} if self.nullable else {}
-
-                return self.type_class(name=self.name, default=self.default_value, **kw)
+                return self.type_class(**self._field_arguments())
 
             # Else: Not a struct or field class -- ignore
             return None
-- 
2.43.0


From f40414ae254e69caede7609d46c5935d8f062804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:24 +0000
Subject: [PATCH 26/35] fix: padded encodings of constant variable-length
 integers shifted the fields after them

---
 binobj/fields/numeric.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/binobj/fields/numeric.py b/binobj/fields/numeric.py
index 56fee6b..67cfc95 100644
--- a/binobj/fields/numeric.py
+++ b/binobj/fields/numeric.py
@@ -253,7 +253,19 @@ class VariableLengthInteger(Integer):
         self, stream: BinaryIO, context: object, loaded_fields: StrDict
     ) -> int:
         """Load a variable-length integer from the given stream."""
-        return self._decode_integer_fn(stream)
+        offset = stream.tell()
+        value = self._decode_integer_fn(stream)
+
+        # A constant has a fixed size, but its value could be padded to a longer
+        # encoding. The fields following it wouldn't be at their offsets then.
+        if self.has_fixed_size and stream.tell() - offset != self.size:
+            raise errors.DeserializationError(
+                f"Expected the integer to take up {self.size} bytes, but it takes up"
+                f" {stream.tell() - offset}.",
+                field=self,
+                offset=offset,
+            )
+        return value
 
     @override
     def _do_dump(
-- 
2.43.0


From 298676852d0a14818beb6bf5b25a0ccce0c6c391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:41 +0000
Subject: [PATCH 27/35] fix: struct instances from an iterator couldn't be
 dumped through a union

---
 binobj/fields/containers.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/binobj/fields/containers.py b/binobj/fields/containers.py
index 2e11405..dd1b580 100644
--- a/binobj/fields/containers.py
+++ b/binobj/fields/containers.py
@@ -491,6 +491,11 @@ class Union(Field[Any]):
         if isinstance(dumper, Field):
             dumper.to_stream(stream, data, context, all_fields)
         elif issubclass(dumper, Struct):
+            # Instances in lists have been turned into dictionaries by now, but those
+            # that an iterator hands out haven't.
+            if isinstance(data, dumper):
+                data.to_stream(stream, context)
+                return
             if not isinstance(data, Mapping):
                 raise TypeError(
                     f"Cannot dump a non-Mapping-like object as a {dumper!r}: {data!r}",
-- 
2.43.0


From a8808554d21b579f3599ea33fdbfff05c1f06f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:17 +0000
Subject: [PATCH 28/35] fix: assigning to a field of a shallow copy of a struct
 modified the original

copy.copy() copied the reference to the dict of values, so that both structs
kept sharing it.
---
 binobj/structures.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/binobj/structures.py b/binobj/structures.py
index 66bf3c3..a34d439 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -879,6 +879,14 @@ class Struct(HasStruct):
         other_values = recursive_to_dicts({n: other[n] for n in other})
         return other_values == self_values
 
+    def __copy__(self) -> Self:
+        # The values need to be in a dict of their own. Otherwise, assigning to a field
+        # of the copy would modify this struct as well.
+        instance = type(self).__new__(type(self))
+        instance.__dict__.update(self.__dict__)
+        instance.__values__ = dict(self.__values__)
+        return instance
+
     def __bytes__(self) -> bytes:
         return self.to_bytes()
 
-- 
2.43.0


From 9e713af6079d05d096c282e5813b6c176bc1bb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:48 +0000
Subject: [PATCH 29/35] fix: exact loads from bytes-like objects with wide
 items accepted trailing data

---
 binobj/structures.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index a34d439..31f39e4 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -612,10 +612,12 @@ class Struct(HasStruct):
         loaded_data = cls.from_stream(stream, context, init_kwargs)
 
         here = stream.tell()
-        if exact and here < len(data):
+        # The length of a bytes-like object isn't necessarily its size in bytes.
+        n_bytes = stream.seek(0, io.SEEK_END)
+        if exact and here < n_bytes:
             raise errors.ExtraneousDataError(
-                f"Read {here} bytes, but there are {len(data)} in the input data.",
-                offset=stream.tell(),
+                f"Read {here} bytes, but there are {n_bytes} in the input data.",
+                offset=here,
             )
         return loaded_data
 
-- 
2.43.0


From 63b78b79e6036f2c1d91a9b770601932d654b603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:57 +0000
Subject: [PATCH 30/35] fix: name the struct being declared in
 MultipleInheritanceError

It named the metadata class, StructMetadata, instead.
---
 binobj/structures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index 31f39e4..02bf0e6 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -119,7 +119,7 @@ class StructMetadata:
         ]
 
         if len(struct_bases) > 1:
-            raise errors.MultipleInheritanceError(struct=cls.__name__)
+            raise errors.MultipleInheritanceError(struct=struct_class.__name__)
 
         metadata = cls(name=struct_class.__name__)
         namespace = vars(struct_class)
-- 
2.43.0


From ef3dc6fb702c3bc09a07fe814ae6d66ba47af9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:51 +0000
Subject: [PATCH 31/35] fix: say which field and where in a field's
 ExtraneousDataError

---
 binobj/fields/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/binobj/fields/base.py b/binobj/fields/base.py
index a6fce47..04db755 100644
--- a/binobj/fields/base.py
+++ b/binobj/fields/base.py
@@ -783,7 +783,9 @@ class Field(Generic[T]):
         bytes_remaining = stream.tell() - here
         if exact and bytes_remaining > 0:
             raise errors.ExtraneousDataError(
-                f"The input has {bytes_remaining} extra byte(s)."
+                f"The input has {bytes_remaining} extra byte(s).",
+                field=self,
+                offset=here,
             )
         return loaded_data
 
-- 
2.43.0


From 446d4b7b50083ca9060bded8bb0b542b7be5d9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:54 +0000
Subject: [PATCH 32/35] fix: null values shorter than their field weren't
 padded when dumped

---
 binobj/fields/base.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/binobj/fields/base.py b/binobj/fields/base.py
index 04db755..6e9b353 100644
--- a/binobj/fields/base.py
+++ b/binobj/fields/base.py
@@ -968,7 +968,17 @@ class Field(Generic[T]):
                 context=None,
                 all_fields=all_fields,
             )
-            return buf.getvalue()
+            null_repr = buf.getvalue()
+            if self.size is None:
+                return null_repr
+
+            # Like any other value, this one must take up exactly the field's size.
+            expected_size = self.get_expected_size(all_fields)
+            if len(null_repr) > expected_size:
+                raise errors.ValueSizeError(field=self, value=null_repr)
+            if len(null_repr) < expected_size:
+                null_repr = self._add_padding(null_repr, expected_size)
+            return null_repr
 
         # User wants us to use all null bytes for the default null value.
         try:
-- 
2.43.0


From 50b29e53b7ebee815ec474e8d903ac5e7f248679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:48 +0000
Subject: [PATCH 33/35] fix: declaring a subclass changed which class the
 inherited fields belong to

---
 binobj/pep526.py     | 1 +
 binobj/structures.py | 7 ++++---
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/binobj/pep526.py b/binobj/pep526.py
index 36059fa..62040e1 100644
--- a/binobj/pep526.py
+++ b/binobj/pep526.py
@@ -289,6 +289,7 @@ def dataclass(class_object: type[TStruct]) -> type[TStruct]:
         #
         # If we don't do this `MyStruct.foo` will be `123`, not a Field object.
         setattr(class_object, name, field_instance)
+        field_instance.__objclass__ = class_object
 
     if n_fields_found == 0:
         raise errors.NoDefinedFieldsError(struct=class_object)
diff --git a/binobj/structures.py b/binobj/structures.py
index 02bf0e6..2c66aba 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -901,9 +901,10 @@ class Struct(HasStruct):
         setattr(cls, STRUCT_META_NAME, meta)
 
         # Set __objclass__ on all fields to aid type introspection. The `inspect` module
-        # uses this as an aid.
-        for field in meta.components.values():
-            field.__objclass__ = cls
+        # uses this as an aid. Inherited fields belong to the class that declared them.
+        for field in vars(cls).values():
+            if isinstance(field, fields.Field):
+                field.__objclass__ = cls
 
         super().__init_subclass__()
 
-- 
2.43.0


From c51a7921f52bd3ca88eee910147e251a0687931e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:50 +0000
Subject: [PATCH 34/35] fix: floats out of a field's range weren't reported as
 unserializable values

---
 binobj/fields/numeric.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/binobj/fields/numeric.py b/binobj/fields/numeric.py
index 67cfc95..4920002 100644
--- a/binobj/fields/numeric.py
+++ b/binobj/fields/numeric.py
@@ -112,8 +112,14 @@ class Float(Field[float]):
     ) -> None:
         try:
             serialized = struct.pack(self.format_string, data)
+        except OverflowError as exc:
+            raise errors.UnserializableValueError(
+                field=self, value=data, reason=str(exc)
+            ) from None
         except struct.error as exc:
-            raise errors.SerializationError(message=str(exc), field=self) from exc
+            raise errors.SerializationError(
+                message=str(exc), field=self, value=data
+            ) from exc
         stream.write(serialized)
 
 
-- 
2.43.0


From 05b0636016b370f84623097ee11c37b5663c36f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:12 +0000
Subject: [PATCH 35/35] fix: values assigned to attributes annotated with field
 instances were ignored

A PEP 526 declaration like `a: UInt16(endian="big") = 5` (or with Annotated) silently
dropped the 5, so the field had no default and dumping the struct failed.
---
 binobj/pep526.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/binobj/pep526.py b/binobj/pep526.py
index 62040e1..8a00581 100644
--- a/binobj/pep526.py
+++ b/binobj/pep526.py
@@ -175,8 +175,15 @@ class AnnotationInfo:
             # Not an instance of Field -- ignore
             return None
 
-        # Else: The annotation is a field instance.
-        return self.type_class
+        # Else: The annotation is a field instance. A value assigned to the attribute is
+        # its default, just like for classes, unless it came with one of its own.
+        field = self.type_class
+        if field._default is fields.UNDEFINED and field.factory is None:  # noqa: SLF001
+            if callable(self.default_value):
+                field.factory = self.default_value
+            else:
+                field._default = self.default_value  # noqa: SLF001
+        return field
 
 
 def dataclass(class_object: type[TStruct]) -> type[TStruct]:
-- 
2.43.0

