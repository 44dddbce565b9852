From 00a23e49085647b7fcba59258c2428b2f1d81b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:11:02 +0000
Subject: [PATCH 01/49] fix: pad optionals and nested dynamic structs by the
 wire rules in Python

Optionals of 1- and 2-byte types were placed by the alignment of the base
type instead of the 4-byte flag, struct sizes ignored the optional flag when
computing padding, and the block following a nested dynamic struct was not
aligned to the greatest alignment of the block.
---
 prophy/composite.py  | 20 ++++++++++++++------
 prophy/descriptor.py |  5 +++--
 prophy/generators.py | 21 ++++++++++++---------
 3 files changed, 29 insertions(+), 17 deletions(-)

diff --git a/prophy/composite.py b/prophy/composite.py
index bcf498d..2f0f855 100644
--- a/prophy/composite.py
+++ b/prophy/composite.py
@@ -10,6 +10,14 @@ def distance_to_next_multiply(number, alignment):
     return (alignment - remainer) % alignment
 
 
+def wire_alignment(type_):
+    return type_._OPTIONAL_ALIGNMENT if type_._OPTIONAL else type_._ALIGNMENT
+
+
+def wire_size(type_):
+    return type_._OPTIONAL_SIZE if type_._OPTIONAL else type_._SIZE
+
+
 def field_to_string(name, type_, value):
     single_indent_level = " " * 2
 
@@ -60,11 +68,11 @@ class struct(_composite_base):
         data = b""
 
         for field in self._descriptor:
-            data += (self._get_padding(len(data), field.type._ALIGNMENT))
+            data += (self._get_padding(len(data), wire_alignment(field.type)))
             data += field.encode_fcn(self, field.type, getattr(self, field.name, None), endianness)
 
-            if field.type._PARTIAL_ALIGNMENT:
-                data += self._get_padding(len(data), field.type._PARTIAL_ALIGNMENT)
+            if field.partial_alignment:
+                data += self._get_padding(len(data), field.partial_alignment)
 
         data += self._get_padding(len(data), self._ALIGNMENT)
 
@@ -78,13 +86,13 @@ class struct(_composite_base):
         start_pos = pos
 
         for field in self._descriptor:
-            pos += self._get_padding_size(pos, field.type._ALIGNMENT)
+            pos += self._get_padding_size(pos, wire_alignment(field.type))
             try:
                 pos += field.decode_fcn(self, field.name, field.type, data, pos, endianness, len_hints)
             except ProphyError as e:
                 raise ProphyError("{}: {}".format(self.__class__.__name__, e))
-            if field.type._PARTIAL_ALIGNMENT:
-                pos += self._get_padding_size(pos, field.type._PARTIAL_ALIGNMENT)
+            if field.partial_alignment:
+                pos += self._get_padding_size(pos, field.partial_alignment)
 
         pos += self._get_padding_size(pos, self._ALIGNMENT)
 
diff --git a/prophy/descriptor.py b/prophy/descriptor.py
index 250d631..fc3d71e 100644
--- a/prophy/descriptor.py
+++ b/prophy/descriptor.py
@@ -11,16 +11,17 @@ FieldDescriptor.__repr__ = lambda self: "<{}, {!r}, {!r}>".format(*self)
 
 class DescriptorField(renew.Mold):
     _cls_namespace = "prophy.descriptor"
-    _extra_slots = "encode_fcn", "decode_fcn"
+    _extra_slots = "encode_fcn", "decode_fcn", "partial_alignment"
 
     def __init__(self, name, type, discriminator=None):
         self.name = name
         self.type = type
         self.discriminator = discriminator
-        # These two are set later in extend_descriptor
+        # These are set later in add_attributes and extend_descriptor
         # their value don't affect __eq__ & __ne__ result
         self.encode_fcn = None
         self.decode_fcn = None
+        self.partial_alignment = None
 
     def __repr__(self):
         is_union_descriptor = self.discriminator is not None
diff --git a/prophy/generators.py b/prophy/generators.py
index 0b3f72c..ebbfa89 100644
--- a/prophy/generators.py
+++ b/prophy/generators.py
@@ -1,7 +1,7 @@
 import collections
 
 from .base_array import base_array
-from .composite import codec_kind, distance_to_next_multiply, struct_packed
+from .composite import codec_kind, distance_to_next_multiply, struct_packed, wire_alignment, wire_size
 from .descriptor import DescriptorField
 from .exception import ProphyError
 from .scalar import u32
@@ -201,25 +201,28 @@ class struct_generator(_composite_generator_base):
         cls._DYNAMIC = any(type_._DYNAMIC for type_ in cls._types())
         cls._OPTIONAL = False
         cls._PARTIAL_ALIGNMENT = None
-        cls._SIZE = sum((type_._OPTIONAL_SIZE if type_._OPTIONAL else type_._SIZE) for type_ in cls._types())
+        cls._SIZE = sum(wire_size(type_) for type_ in cls._types())
         cls._UNLIMITED = any(type_._UNLIMITED for type_ in cls._types())
         if not cls._descriptor:
             cls._ALIGNMENT = 1
         else:
-            cls._ALIGNMENT = max((t._OPTIONAL_ALIGNMENT if t._OPTIONAL else t._ALIGNMENT) for t in cls._types())
+            cls._ALIGNMENT = max(wire_alignment(type_) for type_ in cls._types())
 
         alignment = 1
-        for type_ in reversed(list(cls._types())):
-            if issubclass(type_, (base_array, bytes)) and type_._DYNAMIC:
-                type_._PARTIAL_ALIGNMENT = alignment
+        for field in reversed(cls._descriptor):
+            type_ = field.type
+            if type_._DYNAMIC:
+                field.partial_alignment = alignment
+                if issubclass(type_, (base_array, bytes)):
+                    type_._PARTIAL_ALIGNMENT = alignment
                 alignment = 1
-            alignment = max(type_._ALIGNMENT, alignment)
+            alignment = max(wire_alignment(type_), alignment)
         if not issubclass(cls, struct_packed) and cls._descriptor:
 
             def get_padded_sizes():
                 types = list(cls._types())
-                sizes = [tp._SIZE for tp in types]
-                alignments = [tp._ALIGNMENT for tp in types[1:]] + [cls._ALIGNMENT]
+                sizes = [wire_size(tp) for tp in types]
+                alignments = [wire_alignment(tp) for tp in types[1:]] + [cls._ALIGNMENT]
                 offset = 0
 
                 for size, alignment in zip(sizes, alignments):
-- 
2.43.0


From 0eaf4681c68fea126bdffac1b59471190020777d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:11:22 +0000
Subject: [PATCH 02/49] fix: decode optional enums that have no enumerator
 equal to 1

The presence flag was assigned to the field before decoding its value, which
an enum without an enumerator valued 1 rejects.
---
 prophy/descriptor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/prophy/descriptor.py b/prophy/descriptor.py
index fc3d71e..4e2770f 100644
--- a/prophy/descriptor.py
+++ b/prophy/descriptor.py
@@ -102,7 +102,8 @@ def decode_optional(parent, name, type_, data, pos, endianness, len_hints):
     value, _ = type_._optional_type._decode(data, pos, endianness)
     opt_alignment = type_._OPTIONAL_ALIGNMENT
     if value:
-        setattr(parent, name, True)
+        if codec_kind.is_composite(type_):
+            setattr(parent, name, True)
         sub_type = type_.__bases__[0]
         pos += opt_alignment
         return opt_alignment + type_._decode(parent, name, sub_type, data, pos, endianness, len_hints)
-- 
2.43.0


From 8c2375d53447f043be7f4b14d10c12194f522bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:12:20 +0000
Subject: [PATCH 03/49] fix: encode and print unset variable-length bytes
 fields

The default of dynamic, limited and greedy bytes fields is an empty str, which
made encode raise TypeError and str() print a lone quote on Python 3.
---
 prophy/composite.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prophy/composite.py b/prophy/composite.py
index 2f0f855..e11471b 100644
--- a/prophy/composite.py
+++ b/prophy/composite.py
@@ -29,7 +29,7 @@ def field_to_string(name, type_, value):
     elif issubclass(type_, (struct, union)):
         return "%s {\n%s}\n" % (name, indent(str(value)))
     elif issubclass(type_, bytes):
-        return "%s: %s\n" % (name, repr_bytes(value))
+        return "%s: %s\n" % (name, repr_bytes(value or b""))
     elif issubclass(type_, enum):
         return "%s: %s\n" % (name, type_._int_to_name[value])
     else:
@@ -220,7 +220,7 @@ def bytes_(**kwargs):
 
         @staticmethod
         def _encode(value):
-            return value.ljust(size, b'\x00')
+            return (value or b"").ljust(size, b'\x00')
 
         @staticmethod
         def _decode(data, pos, len_hint):
-- 
2.43.0


From fb1981516f1442747e25aedd7642257b57c1f911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:14:16 +0000
Subject: [PATCH 04/49] fix: copy limited composite arrays and optional
 composites in copy_from

Elements of a limited array of composites were silently dropped and a set
optional composite raised AttributeError.
---
 prophy/composite.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/prophy/composite.py b/prophy/composite.py
index e11471b..d667702 100644
--- a/prophy/composite.py
+++ b/prophy/composite.py
@@ -109,7 +109,7 @@ class struct(_composite_base):
         lhs = getattr(self, name)
         if isinstance(rhs, base_array):
             if codec_kind.is_composite(rhs._TYPE):
-                if rhs._DYNAMIC:
+                if rhs._DYNAMIC or rhs._BOUND:
                     del lhs[:]
                     lhs.extend(rhs[:])
                 else:
@@ -118,6 +118,9 @@ class struct(_composite_base):
             else:
                 lhs[:] = rhs[:]
         elif codec_kind.is_composite(type(rhs)):
+            if lhs is None:
+                setattr(self, name, True)
+                lhs = getattr(self, name)
             lhs.copy_from(rhs)
         else:
             self._fields[name] = rhs
-- 
2.43.0


From 7027cc05a28b000708957f428d29ab846d2a30bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:15:59 +0000
Subject: [PATCH 05/49] fix: array mutators honour slice steps, accept
 iterators and reject atomically

A rejected extend() or add() left part of the new elements in the array, slice
steps were ignored, extending an array by itself never ended and arguments
without a length raised TypeError.
---
 prophy/container.py | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/prophy/container.py b/prophy/container.py
index 8811bd4..a9702c0 100644
--- a/prophy/container.py
+++ b/prophy/container.py
@@ -17,6 +17,14 @@ def decode_scalar_array(tp, data, pos, endianness, count):
     return values, cursor
 
 
+def checked_values(tp, values):
+    try:
+        values = list(values)
+    except TypeError:
+        raise ProphyError("object of type '{}' has no len()".format(type(values).__name__))
+    return [tp._check(value) for value in values]
+
+
 def scalar_array_eq(self, other):
     if self is other:
         return True
@@ -45,15 +53,16 @@ class fixed_scalar_array(base_array):
 
     def __setitem__(self, idx, value):
         if isinstance(idx, slice):
-            self.__setslice__(idx.start, idx.stop, value)
+            values = checked_values(self._TYPE, value)
+            if len(self._values[idx]) != len(values):
+                raise ProphyError("setting slice with different length collection")
+            self._values[idx] = values
         else:
             value = self._TYPE._check(value)
             self._values[idx] = value
 
     def __setslice__(self, start, stop, values):
-        if len(self._values[start:stop]) != len(values):
-            raise ProphyError("setting slice with different length collection")
-        self._values[start:stop] = map(self._TYPE._check, values)
+        self[slice(start, stop)] = values
 
     def __eq__(self, other):
         return scalar_array_eq(self, other)
@@ -87,24 +96,26 @@ class bound_scalar_array(base_array):
     def extend(self, values):
         if not values:
             return
+        values = checked_values(self._TYPE, values)
         if self._max_len and len(self) + len(values) > self._max_len:
             raise ProphyError("exceeded array limit")
-        self._values.extend(map(self._TYPE._check, values))
+        self._values.extend(values)
 
     def remove(self, elem):
         self._values.remove(elem)
 
     def __setitem__(self, idx, value):
         if isinstance(idx, slice):
-            self.__setslice__(idx.start, idx.stop, value)
+            values = checked_values(self._TYPE, value)
+            if self._max_len and len(self) + len(values) - len(self._values[idx]) > self._max_len:
+                raise ProphyError("exceeded array limit")
+            self._values[idx] = values
         else:
             value = self._TYPE._check(value)
             self._values[idx] = value
 
     def __setslice__(self, start, stop, values):
-        if self._max_len and len(self) + len(values) - len(self._values[start:stop]) > self._max_len:
-            raise ProphyError("exceeded array limit")
-        self._values[start:stop] = map(self._TYPE._check, values)
+        self[slice(start, stop)] = values
 
     def __delitem__(self, idx):
         del self._values[idx]
@@ -156,24 +167,27 @@ class bound_composite_array(base_array):
             raise ProphyError("exceeded array limit")
 
         new_element = self._TYPE()
-        self._values.append(new_element)
         for name, value in attributes.items():
             attr = getattr(new_element, name)
             if isinstance(attr, base_array):
                 attr[:] = value
             else:
                 setattr(new_element, name, value)
+        self._values.append(new_element)
         return new_element
 
     def extend(self, elem_seq):
+        elem_seq = list(elem_seq)
         if self._max_len and len(self) + len(elem_seq) > self._max_len:
             raise ProphyError("exceeded array limit")
 
         composite_cls = self._TYPE
+        new_elements = []
         for message in elem_seq:
             new_element = composite_cls()
             new_element.copy_from(message)
-            self._values.append(new_element)
+            new_elements.append(new_element)
+        self._values.extend(new_elements)
 
     def __delitem__(self, idx):
         del self._values[idx]
-- 
2.43.0


From 864711e60fd9982e962fd8a824acde8daaf78223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:16:11 +0000
Subject: [PATCH 06/49] fix: reject floats which do not fit the field type

A value too large for a float or double field was accepted on assignment and
made encode raise OverflowError.
---
 prophy/scalar.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/prophy/scalar.py b/prophy/scalar.py
index afd157a..b20b922 100644
--- a/prophy/scalar.py
+++ b/prophy/scalar.py
@@ -65,6 +65,10 @@ def float_decorator(size, id_):
         def check(value):
             if not isinstance(value, (float, int, long)):
                 raise ProphyError("not a float")
+            try:
+                struct.pack('<' + id_, value)
+            except (OverflowError, struct.error):
+                raise ProphyError("value: {} out of {}B float's bounds".format(value, size))
             return value
 
         cls._check = check
-- 
2.43.0


From 1e19c66b9a5150662f9df0d31e0bd6d80058f8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:16:36 +0000
Subject: [PATCH 07/49] fix: do not let an array outgrow the range of its sizer

An array or bytes field counted by a narrow sizer accepted more elements than
the sizer can hold, and encode then raised struct.error.
---
 prophy/composite.py  | 3 ++-
 prophy/generators.py | 2 ++
 prophy/scalar.py     | 1 +
 3 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/prophy/composite.py b/prophy/composite.py
index d667702..5ced057 100644
--- a/prophy/composite.py
+++ b/prophy/composite.py
@@ -200,6 +200,7 @@ def bytes_(**kwargs):
         raise ProphyError("unknown arguments to bytes field")
 
     class _bytes(bytes):
+        _max_len = size
         _SIZE = size
         _DYNAMIC = not size
         _UNLIMITED = not size and not bound
@@ -215,7 +216,7 @@ def bytes_(**kwargs):
         def _check(value):
             if not isinstance(value, bytes):
                 raise ProphyError("not a bytes")
-            if size and len(value) > size:
+            if _bytes._max_len and len(value) > _bytes._max_len:
                 raise ProphyError("too long")
             if size and not bound:
                 return value.ljust(size, b'\x00')
diff --git a/prophy/generators.py b/prophy/generators.py
index ebbfa89..fe59d71 100644
--- a/prophy/generators.py
+++ b/prophy/generators.py
@@ -308,6 +308,8 @@ class struct_generator(_composite_generator_base):
         sizer_item = next(field for field in cls._descriptor if field.name == sizer_name)
         bound_shift = container_item.type._BOUND_SHIFT
         cls.validate_sizer_type(sizer_item, container_item)
+        container_item.type._max_len = min(container_item.type._max_len or sizer_item.type._MAX,
+                                           sizer_item.type._MAX - bound_shift)
 
         if sizer_item.type.__name__ == "container_len":
             sizer_item.type.add_bounded_container(container_item.name)
diff --git a/prophy/scalar.py b/prophy/scalar.py
index b20b922..50ce786 100644
--- a/prophy/scalar.py
+++ b/prophy/scalar.py
@@ -51,6 +51,7 @@ def int_decorator(size, id_, min_, max_):
         cls._check = check
 
         cls._DEFAULT = 0
+        cls._MAX = max_
 
         return cls
 
-- 
2.43.0


From f0789d15424b218c8be65354b88ece3470f810b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:16:55 +0000
Subject: [PATCH 08/49] fix: store plain integers in integer fields

A bool assigned to an integer field was printed as True or False.
---
 prophy/scalar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prophy/scalar.py b/prophy/scalar.py
index 50ce786..5c0f079 100644
--- a/prophy/scalar.py
+++ b/prophy/scalar.py
@@ -46,7 +46,7 @@ def int_decorator(size, id_, min_, max_):
                 raise ProphyError("not an int")
             if not min_ <= value <= max_:
                 raise ProphyError("value: {} out of {}B integer's bounds: [{}, {}]".format(value, size, min_, max_))
-            return value
+            return int(value)
 
         cls._check = check
 
-- 
2.43.0


From eaeb3dcfe11b9165d689cbc40429cd5c781cb8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:20:53 +0000
Subject: [PATCH 09/49] fix: classify structs ending with an unlimited member
 as unlimited

A dynamic array among the members demoted the struct to dynamic.
Typedefs of dynamic and unlimited structs were classified as fixed.
---
 prophyc/model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/prophyc/model.py b/prophyc/model.py
index 08234b8..2b84b45 100644
--- a/prophyc/model.py
+++ b/prophyc/model.py
@@ -334,10 +334,10 @@ class _SerializableContainer(_Container, _Serializable):
 
                 if self.members[-1].greedy:
                     self.kind = Kind.UNLIMITED
-                elif any(x.is_dynamic for x in self.members):
-                    self.kind = Kind.DYNAMIC
                 else:
                     self.kind = max(x.kind for x in self.members)
+                    if any(x.is_dynamic for x in self.members):
+                        self.kind = max(self.kind, Kind.DYNAMIC)
 
 
 class Struct(_SerializableContainer):
@@ -494,7 +494,7 @@ def to_int(x, constants):
 def evaluate_stiffness_kinds(nodes):
     """Adds kind to all Structs and StructMembers. Requires cross referenced nodes."""
     for node in nodes:
-        if isinstance(node, Struct):
+        if isinstance(node, (Typedef, Struct)):
             node.calc_wire_stiffness()
 
 
-- 
2.43.0


From 32f8ad5d940b3743a915646eda8f422e7df0c37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:21:06 +0000
Subject: [PATCH 10/49] fix: pad dynamic structs which end with a narrow
 optional

The value of an optional may end off the alignment of the optional, so
the alignment of the last member does not tell if end padding is needed.
---
 prophyc/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/prophyc/model.py b/prophyc/model.py
index 2b84b45..1705d68 100644
--- a/prophyc/model.py
+++ b/prophyc/model.py
@@ -577,7 +577,8 @@ def evaluate_sizes(nodes, warn=null_warn):
             padding = (alignment - byte_size % alignment) % alignment
             byte_size += padding
             if any(is_member_dynamic(m) for m in node_.members):
-                prev_member.padding = (node_.members[-1].alignment < alignment) and (-alignment) or 0
+                unaligned = prev_member.alignment < alignment or prev_member.byte_size % alignment
+                prev_member.padding = unaligned and (-alignment) or 0
             else:
                 prev_member.padding = padding
         node_.byte_size, node_.alignment = byte_size, alignment
-- 
2.43.0


From adf5c125d4b58719435104e68692cb0ca6625153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:21:19 +0000
Subject: [PATCH 11/49] fix: do not subtract dynamic padding in C++
 get_byte_size

A negative padding of a fixed member denotes alignment of the next one.
---
 prophyc/generators/cpp_full.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prophyc/generators/cpp_full.py b/prophyc/generators/cpp_full.py
index 7462e4f..492798d 100644
--- a/prophyc/generators/cpp_full.py
+++ b/prophyc/generators/cpp_full.py
@@ -437,7 +437,7 @@ def generate_struct_get_byte_size(node):
             if m.is_dynamic or m.greedy:
                 elems += ['{0}.size() * {1}'.format(m.name, _get_byte_size(m))]
             else:
-                bytes_ += m.byte_size + m.padding
+                bytes_ += m.byte_size + max(m.padding, 0)
         else:
             if m.is_dynamic or m.greedy:
                 elems += [
-- 
2.43.0


From ee461935c74462888bf0a359b07dd68358344178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:21:34 +0000
Subject: [PATCH 12/49] fix: allow C++ union discriminators above INT_MAX

---
 prophy_cpp/include/prophy/detail/mpl.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/prophy_cpp/include/prophy/detail/mpl.hpp b/prophy_cpp/include/prophy/detail/mpl.hpp
index 04bbe59..d0f77ef 100644
--- a/prophy_cpp/include/prophy/detail/mpl.hpp
+++ b/prophy_cpp/include/prophy/detail/mpl.hpp
@@ -1,6 +1,8 @@
 #ifndef _PROPHY_DETAIL_MPL_HPP
 #define _PROPHY_DETAIL_MPL_HPP
 
+#include <stdint.h>
+
 namespace prophy
 {
 namespace detail
@@ -17,7 +19,7 @@ struct is_class_or_union
     static const bool value = sizeof(is_class_or_union_tester<T>(0)) == sizeof(char);
 };
 
-template <int I>
+template <int64_t I>
 struct int2type
 {
     enum { value = I };
-- 
2.43.0


From c97f3c35511eaecae8521eeee97654ba3a94536e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:21:46 +0000
Subject: [PATCH 13/49] fix: printing bytes in C++ does not alter the format of
 later fields

---
 prophy_cpp/include/prophy/detail/printer.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/prophy_cpp/include/prophy/detail/printer.hpp b/prophy_cpp/include/prophy/detail/printer.hpp
index f5aaf4e..c525751 100644
--- a/prophy_cpp/include/prophy/detail/printer.hpp
+++ b/prophy_cpp/include/prophy/detail/printer.hpp
@@ -36,10 +36,8 @@ inline void print_byte(std::ostream& out, uint8_t x)
     }
     else
     {
-        out << "\\x";
-        out.width(2);
-        out.fill('0');
-        out << std::hex << unsigned(x);
+        const char* digits = "0123456789abcdef";
+        out << "\\x" << digits[x >> 4] << digits[x & 15];
     }
 }
 
-- 
2.43.0


From f5a4975f7628d7061c22c34c4c4f0ed42dd615f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:22:13 +0000
Subject: [PATCH 14/49] fix: C++ decoder refuses input cut inside an absent
 optional

The position was moved past the end of input.
---
 prophy_cpp/include/prophy/detail/decoder.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/prophy_cpp/include/prophy/detail/decoder.hpp b/prophy_cpp/include/prophy/detail/decoder.hpp
index 63120de..d6290ba 100644
--- a/prophy_cpp/include/prophy/detail/decoder.hpp
+++ b/prophy_cpp/include/prophy/detail/decoder.hpp
@@ -342,8 +342,7 @@ inline bool do_decode(optional<T>& x, const uint8_t*& pos, const uint8_t* end)
     {
         return decoder<E, T>::decode(*x, pos, end);
     }
-    pos = pos + codec_traits<T>::size;
-    return true;
+    return do_decode_advance(codec_traits<T>::size, pos, end);
 }
 
 template <endianness E, typename T>
-- 
2.43.0


From 87df5ba64407d2569088896e6b3bc5a93b690b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:22:27 +0000
Subject: [PATCH 15/49] fix: C++ greedy array does not consume a partial
 element

---
 prophy_cpp/include/prophy/detail/decoder.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/prophy_cpp/include/prophy/detail/decoder.hpp b/prophy_cpp/include/prophy/detail/decoder.hpp
index d6290ba..5bb45b0 100644
--- a/prophy_cpp/include/prophy/detail/decoder.hpp
+++ b/prophy_cpp/include/prophy/detail/decoder.hpp
@@ -278,10 +278,12 @@ struct decoder_greedy<E, T, true>
         v.resize(0);
         while(true)
         {
+            const uint8_t* start = pos;
             v.push_back(T());
             if (!decoder<E, T>::decode(v.back(), pos, end))
             {
                 v.pop_back();
+                pos = start;
                 return true;
             }
         }
-- 
2.43.0


From c5d73394741a0495e4ba261fd7a2882277da14f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:24:23 +0000
Subject: [PATCH 16/49] fix: C++ decoder refuses array counters exceeding the
 input

Every element takes at least a byte, so a larger counter cannot be valid.
It led to excessive allocations, or exceptions for negative counters.
---
 prophy_cpp/include/prophy/detail/decoder.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/prophy_cpp/include/prophy/detail/decoder.hpp b/prophy_cpp/include/prophy/detail/decoder.hpp
index 5bb45b0..0deaa0c 100644
--- a/prophy_cpp/include/prophy/detail/decoder.hpp
+++ b/prophy_cpp/include/prophy/detail/decoder.hpp
@@ -369,11 +369,12 @@ template <endianness E, typename CT, typename T>
 inline bool do_decode_resize(std::vector<T>& v, const uint8_t*& pos, const uint8_t* end, size_t max = ~size_t())
 {
     CT n;
+    size_t available = end - pos;
     if (!decoder<E, CT>::decode(n, pos, end))
     {
         return false;
     }
-    if (n > max)
+    if (size_t(n) > max || size_t(n) > available)
     {
         return false;
     }
-- 
2.43.0


From 93f202128f475b14347780ca64c4d36139caeeaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:25:13 +0000
Subject: [PATCH 17/49] fix: C++ optional composites are padded by their
 alignment on wire

Alignment of a C++ class was used, which is larger if it holds a vector.
---
 prophy_cpp/include/prophy/detail/codec_traits.hpp |  9 +++++++++
 prophy_cpp/include/prophy/detail/decoder.hpp      | 10 ++++------
 prophy_cpp/include/prophy/detail/encoder.hpp      |  7 ++-----
 prophyc/generators/cpp_full.py                    | 12 ++++++++++--
 4 files changed, 25 insertions(+), 13 deletions(-)

diff --git a/prophy_cpp/include/prophy/detail/codec_traits.hpp b/prophy_cpp/include/prophy/detail/codec_traits.hpp
index 973b0b4..f44bd4c 100644
--- a/prophy_cpp/include/prophy/detail/codec_traits.hpp
+++ b/prophy_cpp/include/prophy/detail/codec_traits.hpp
@@ -118,6 +118,15 @@ struct codec_traits<std::pair<const uint8_t*, size_t>, true>
     enum { size = -1 };
 };
 
+/// amount of bytes between flag and value of optional,
+/// composites don't know their alignment on wire so generated code gives it explicitly
+template <typename T>
+struct optional_padding
+{
+    enum { is_wide = !codec_traits<T>::is_composite && size_t(codec_traits<T>::size) > sizeof(uint32_t) };
+    enum { value = is_wide ? size_t(codec_traits<T>::size) - sizeof(uint32_t) : 0 };
+};
+
 } // namespace detail
 } // namespace prophy
 
diff --git a/prophy_cpp/include/prophy/detail/decoder.hpp b/prophy_cpp/include/prophy/detail/decoder.hpp
index 0deaa0c..63c5299 100644
--- a/prophy_cpp/include/prophy/detail/decoder.hpp
+++ b/prophy_cpp/include/prophy/detail/decoder.hpp
@@ -325,7 +325,8 @@ inline bool do_decode(T* x, size_t n, const uint8_t*& pos, const uint8_t* end)
 }
 
 template <endianness E, typename T>
-inline bool do_decode(optional<T>& x, const uint8_t*& pos, const uint8_t* end)
+inline bool do_decode(optional<T>& x, const uint8_t*& pos, const uint8_t* end,
+                      size_t padding = optional_padding<T>::value)
 {
     uint32_t disc;
     if (!do_decode<E>(disc, pos, end))
@@ -333,12 +334,9 @@ inline bool do_decode(optional<T>& x, const uint8_t*& pos, const uint8_t* end)
         return false;
     }
     x = disc ? optional<T>(T()) : optional<T>();
-    if (alignment<T>::value > sizeof(uint32_t))
+    if (!do_decode_advance(padding, pos, end))
     {
-        if (!do_decode_advance(alignment<T>::value - sizeof(uint32_t), pos, end))
-        {
-            return false;
-        }
+        return false;
     }
     if (disc)
     {
diff --git a/prophy_cpp/include/prophy/detail/encoder.hpp b/prophy_cpp/include/prophy/detail/encoder.hpp
index 73fd7df..df6e4f4 100644
--- a/prophy_cpp/include/prophy/detail/encoder.hpp
+++ b/prophy_cpp/include/prophy/detail/encoder.hpp
@@ -238,13 +238,10 @@ inline uint8_t* do_encode(uint8_t* data, const T* x, size_t n)
 }
 
 template <endianness E, typename T>
-inline uint8_t* do_encode(uint8_t* data, const optional<T>& x)
+inline uint8_t* do_encode(uint8_t* data, const optional<T>& x, size_t padding = optional_padding<T>::value)
 {
     data = do_encode<E>(data, uint32_t(bool(x)));
-    if (alignment<T>::value > sizeof(uint32_t))
-    {
-        data = data + alignment<T>::value - sizeof(uint32_t);
-    }
+    data = data + padding;
     if (x)
     {
         return do_encode<E>(data, *x);
diff --git a/prophyc/generators/cpp_full.py b/prophyc/generators/cpp_full.py
index 492798d..9aa4b6d 100644
--- a/prophyc/generators/cpp_full.py
+++ b/prophyc/generators/cpp_full.py
@@ -58,6 +58,14 @@ def _get_byte_size(node):
         return node.byte_size
 
 
+def _get_optional_padding(node):
+    """Gets padding argument of optional composite, if it's wider than flag. Builtin types don't need it."""
+    node = _get_leaf(node)
+    if isinstance(node, (model.Struct, model.Union)) and node.alignment > DISC_SIZE:
+        return ', {}'.format(node.alignment - DISC_SIZE)
+    return ''
+
+
 def _get_cpp_builtin_type(node):
     """Gets C++ float or int type from stdint.h, or throws miserably."""
     return BUILTIN2C[_get_leaf(node).type_name]
@@ -347,7 +355,7 @@ def generate_struct_encode(node):
         elif m.greedy:
             text += 'pos = do_encode<E>(pos, x.{0}.data(), x.{0}.size());\n'.format(m.name)
         elif m.optional:
-            text += 'pos = do_encode<E>(pos, x.{0});\n'.format(m.name)
+            text += 'pos = do_encode<E>(pos, x.{0}{1});\n'.format(m.name, _get_optional_padding(m))
         elif m.name in bound:
             b = bound[m.name]
             mcpptype = _get_cpp_builtin_type(m)
@@ -382,7 +390,7 @@ def generate_struct_decode(node):
         elif m.greedy:
             text.append('do_decode_greedy<E>(x.{0}, pos, end)'.format(m.name))
         elif m.optional:
-            text.append('do_decode<E>(x.{0}, pos, end)'.format(m.name))
+            text.append('do_decode<E>(x.{0}, pos, end{1})'.format(m.name, _get_optional_padding(m)))
         elif m.name in bound:
             b = bound[m.name]
             mcpptype = _get_cpp_builtin_type(m)
-- 
2.43.0


From e1afbfce7224b28f7567fc835f707667239ec957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:30:31 +0000
Subject: [PATCH 18/49] fix: pad values of optionals in C++ raw structs

Value of 8-byte alignment follows the 4-byte flag after 4 bytes of padding.
---
 prophyc/generators/cpp.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/prophyc/generators/cpp.py b/prophyc/generators/cpp.py
index 7593f21..1b44c55 100644
--- a/prophyc/generators/cpp.py
+++ b/prophyc/generators/cpp.py
@@ -28,6 +28,18 @@ def _to_literal(value):
         return value
 
 
+def _get_value_padding(member):
+    """Gets amount of bytes between flag and value of optional member."""
+    node = member
+    while getattr(node, 'definition', None):
+        node = node.definition
+    if isinstance(node, (model.Struct, model.Union)):
+        alignment = node.alignment
+    else:
+        alignment = model.BUILTIN_SIZES.get(getattr(node, 'type_name', None))
+    return max((alignment or 0) - model.DISC_SIZE, 0)
+
+
 class _Padder(object):
     PADDINGS = (
         (1, 'uint8_t'),
@@ -121,6 +133,9 @@ class _HppDefinitionsTranslator(TranslatorBase):
             else:
                 field = '{0} {1};\n'.format(typename, member.name)
             if member.optional:
+                padding = _get_value_padding(member)
+                if padding:
+                    field = padder.generate_padding(padding) + field
                 field = 'prophy::bool_t has_{0};\n'.format(member.name) + field
             if member.padding is not None and member.padding > 0:
                 field += padder.generate_padding(member.padding)
-- 
2.43.0


From a102f0933eb11c265917dd0149601fbeca2aa98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:32:31 +0000
Subject: [PATCH 19/49] fix: C++ raw swap of limited arrays sized in a
 preceding part

---
 prophyc/generators/cpp.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/prophyc/generators/cpp.py b/prophyc/generators/cpp.py
index 1b44c55..504b958 100644
--- a/prophyc/generators/cpp.py
+++ b/prophyc/generators/cpp.py
@@ -306,7 +306,14 @@ class _CppSwapTranslator(TranslatorBase):
                     gen_member(last_mem, delimiters)
                 )
             else:
-                return gen_member(last_mem) + ';\n' + 'return payload + 1;\n'
+                return gen_member(last_mem, delimiters) + ';\n' + 'return payload + 1;\n'
+
+        def get_delimiters(part):
+            delimiters = []
+            for mem in part:
+                if mem.bound and mem.bound not in delimiters and mem.bound not in [x.name for x in part]:
+                    delimiters.append(mem.bound)
+            return delimiters
 
         def gen_main(main, parts):
             all_names = {mem.name: 'payload' for mem in main}
@@ -314,11 +321,7 @@ class _CppSwapTranslator(TranslatorBase):
                 all_names.update({mem.name: 'part{0}'.format(i + 2) for mem in part})
 
             def get_missing(part_number):
-                part = parts[part_number]
-                names = [mem.name for mem in part]
-                return [(all_names[mem.bound], mem.bound)
-                        for mem in part
-                        if mem.bound and mem.bound not in names]
+                return [(all_names[bound], bound) for bound in get_delimiters(parts[part_number])]
 
             def gen_missing(part_number):
                 return ''.join(', {0}->{1}'.format(x[0], x[1]) for x in get_missing(part_number))
@@ -339,8 +342,7 @@ class _CppSwapTranslator(TranslatorBase):
             return STRUCT_SWAP_MAIN_TEMPLATE.format(name=struct.name, members=_indent(members, 4))
 
         def gen_part(part_number, part):
-            names = [mem.name for mem in part]
-            delimiters = [mem.bound for mem in part if mem.bound and mem.bound not in names]
+            delimiters = get_delimiters(part)
             members = ''.join(gen_member(mem, delimiters) + ';\n' for mem in part[:-1])
             members += gen_last_member('{0}::part{1}'.format(struct.name, part_number), part[-1], delimiters)
             delimiters_list = ''.join(', size_t {0}'.format(x) for x in delimiters)
-- 
2.43.0


From a1cb6e8bb9325a01310f8d3a5bb9d785ff37e11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:32:41 +0000
Subject: [PATCH 20/49] fix: C++ raw swap returns the exact address of an
 unlimited member

The address was aligned up to the struct alignment.
---
 prophyc/generators/cpp.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/prophyc/generators/cpp.py b/prophyc/generators/cpp.py
index 504b958..6c2f30a 100644
--- a/prophyc/generators/cpp.py
+++ b/prophyc/generators/cpp.py
@@ -294,9 +294,20 @@ class _CppSwapTranslator(TranslatorBase):
                     preamble = ''
                 return preamble + 'swap({0})'.format(_member_access_statement(member))
 
-        def gen_last_member(name, last_mem, delimiters=[]):
+        def is_tail_aligned(part, alignment):
+            offset = sum(mem.byte_size + mem.padding for mem in part[:-1])
+            return offset % alignment == 0 and (part is main or part[0].alignment >= alignment)
+
+        def gen_tail_cast(part, alignment):
+            """Address of unlimited member shall not be aligned up to struct alignment."""
+            is_unlimited = part[-1].kind == model.Kind.UNLIMITED or part[-1].greedy
+            return 'reinterpret_cast' if is_unlimited and not is_tail_aligned(part, alignment) else 'cast'
+
+        def gen_last_member(name, part, alignment, delimiters=[]):
+            last_mem = part[-1]
             if last_mem.kind == model.Kind.UNLIMITED or last_mem.greedy:
-                return 'return cast<{0}*>({1});\n'.format(
+                return 'return {0}<{1}*>({2});\n'.format(
+                    gen_tail_cast(part, alignment),
                     name,
                     _member_access_statement(last_mem)
                 )
@@ -334,9 +345,10 @@ class _CppSwapTranslator(TranslatorBase):
                         i + 2,
                         'swap(part{0}{1})'.format(i + 1, gen_missing(i - 1)) if i else gen_member(main[-1])
                     )
-                members += 'return cast<{0}*>(swap(part{1}{2}));\n'.format(struct.name, i + 2, gen_missing(i))
+                members += 'return {0}<{1}*>(swap(part{2}{3}));\n'.format(
+                    gen_tail_cast(parts[-1], struct.alignment), struct.name, i + 2, gen_missing(i))
             elif main:
-                members += gen_last_member(struct.name, main[-1])
+                members += gen_last_member(struct.name, main, struct.alignment)
             else:
                 members += 'return payload + 1;\n'
             return STRUCT_SWAP_MAIN_TEMPLATE.format(name=struct.name, members=_indent(members, 4))
@@ -344,7 +356,8 @@ class _CppSwapTranslator(TranslatorBase):
         def gen_part(part_number, part):
             delimiters = get_delimiters(part)
             members = ''.join(gen_member(mem, delimiters) + ';\n' for mem in part[:-1])
-            members += gen_last_member('{0}::part{1}'.format(struct.name, part_number), part[-1], delimiters)
+            members += gen_last_member('{0}::part{1}'.format(struct.name, part_number), part, part[0].alignment,
+                                       delimiters)
             delimiters_list = ''.join(', size_t {0}'.format(x) for x in delimiters)
             return STRUCT_SWAP_PART_TEMPLATE.format(name=struct.name, number=part_number, members=_indent(members, 4),
                                                     delimiters=delimiters_list)
-- 
2.43.0


From 8acd9254d1dac6e7061f91ed6952bf77f7fd03a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:37:05 +0000
Subject: [PATCH 21/49] fix: report recursive definitions instead of hanging

Model errors are reported by the compiler like all other errors.
---
 prophyc/__init__.py | 2 ++
 prophyc/model.py    | 9 ++++++---
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/prophyc/__init__.py b/prophyc/__init__.py
index 56f4753..a7c3e00 100644
--- a/prophyc/__init__.py
+++ b/prophyc/__init__.py
@@ -160,3 +160,5 @@ def error_on_exception(emit):
         yield
     except model.ParseError as e:
         emit.error('\n'.join(('%s: error: %s' % err for err in e.errors)))
+    except model.ModelError as e:
+        emit.error(str(e))
diff --git a/prophyc/model.py b/prophyc/model.py
index 1705d68..00277b0 100644
--- a/prophyc/model.py
+++ b/prophyc/model.py
@@ -383,7 +383,7 @@ def null_warn(_):
 
 
 def topological_sort(nodes):
-    """Sorts nodes."""
+    """Sorts nodes. Raises ModelError if they depend on each other in a cycle."""
 
     def find_first_dep(dependency, start_index):
         for i, n in enumerate(islice(nodes, start_index, None), start_index):
@@ -395,14 +395,17 @@ def topological_sort(nodes):
         for dep in node.dependencies():
             if dep not in known and dep in available:
                 found_index = find_first_dep(dep, index + 1)
-                if found_index:
-                    nodes.insert(index, nodes.pop(found_index))
+                if not found_index or dep in rotated:
+                    raise ModelError("Definition of '%s' is recursive." % dep)
+                nodes.insert(index, nodes.pop(found_index))
+                rotated.add(dep)
                 return True
         known.add(node.name)
 
     known = set(x + y for x in "uir" for y in ["8", "16", "32", "64"])
     available = set(node.name for node in nodes)
     for index in range(len(nodes)):
+        rotated = set()
         while model_sort_rotate():
             pass
 
-- 
2.43.0


From e83af434809f7be5d476748bbd3c13bf7776c87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:40:33 +0000
Subject: [PATCH 22/49] fix: report redefined enumerators and union arms with
 location

---
 prophyc/parsers/prophy.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/prophyc/parsers/prophy.py b/prophyc/parsers/prophy.py
index 0ab25ad..a68a016 100755
--- a/prophyc/parsers/prophy.py
+++ b/prophyc/parsers/prophy.py
@@ -211,9 +211,12 @@ class Parser(object):
 
     def p_enum_def(self, t):
         '''enum_def : ENUM unique_id enum_body SEMI'''
-        node = model.Enum(t[2], t[3])
-        self.typedecls[t[2]] = node
-        self.nodes.append(node)
+        try:
+            node = model.Enum(t[2], t[3])
+            self.typedecls[t[2]] = node
+            self.nodes.append(node)
+        except model.ModelError as e:  # actual raise is postponed till end of parsing
+            self._parser_error(str(e), t.lexer.lineno, 0)
 
     def p_enum_body(self, t):
         '''enum_body : LBRACE enum_member_list RBRACE'''
@@ -334,7 +337,10 @@ class Parser(object):
                 line, pos
             )
 
-        node = model.Union(t[2], [x for x, _, _ in t[3]])
+        try:
+            node = model.Union(t[2], [x for x, _, _ in t[3]])
+        except model.ModelError as e:
+            raise model.ModelError("%s: error: %s" % (self.errors[-1][0], e))
         self.typedecls[t[2]] = node
         self.nodes.append(node)
 
-- 
2.43.0


From c1d2511d5b1c86e63310d6cce706f3696b1aef8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:40:44 +0000
Subject: [PATCH 23/49] fix: divide integers in constant expressions

True division gave floats, which were emitted as constants and array sizes.
---
 prophyc/calc.py           | 4 +++-
 prophyc/parsers/prophy.py | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/prophyc/calc.py b/prophyc/calc.py
index 5b554c6..4b6370f 100644
--- a/prophyc/calc.py
+++ b/prophyc/calc.py
@@ -74,7 +74,9 @@ class Calc(object):
         elif p[2] == '*':
             p[0] = p[1] * p[3]
         elif p[2] == '/':
-            p[0] = p[1] / p[3]
+            if not p[3]:
+                raise ParseError('division by zero')
+            p[0] = p[1] // p[3]
         elif p[2] == '<<':
             p[0] = p[1] << p[3]
         elif p[2] == '>>':
diff --git a/prophyc/parsers/prophy.py b/prophyc/parsers/prophy.py
index a68a016..15c0e01 100755
--- a/prophyc/parsers/prophy.py
+++ b/prophyc/parsers/prophy.py
@@ -421,7 +421,7 @@ class Parser(object):
             elif t[2] == '*':
                 t[0] = t[1] * t[3]
             elif t[2] == '/':
-                t[0] = t[1] / t[3]
+                t[0] = t[1] // t[3]
             elif t[2] == '<<':
                 t[0] = t[1] << t[3]
             elif t[2] == '>>':
-- 
2.43.0


From cb2cb301f913c6f2656c8fa4bd8850b90b130ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:15 +0000
Subject: [PATCH 24/49] fix: report shifts, numbers and constants out of range

Negative shift counts, huge shift counts and overlong numbers ended with
an internal exception or exhausted memory. Constants are limited to 64
bits, which is what generated C++ code is able to hold.
---
 prophyc/calc.py           | 30 +++++++++++++++++++++++++++---
 prophyc/parsers/prophy.py | 28 ++++++++++++++++++++++++----
 2 files changed, 51 insertions(+), 7 deletions(-)

diff --git a/prophyc/calc.py b/prophyc/calc.py
index 4b6370f..224da19 100644
--- a/prophyc/calc.py
+++ b/prophyc/calc.py
@@ -6,6 +6,20 @@ class ParseError(Exception):
     pass
 
 
+MAX_BITS = 1024
+"""Values of intermediate results are limited in order to keep evaluation time and memory in check."""
+
+
+def check_magnitude(value):
+    if value.bit_length() > MAX_BITS:
+        raise ParseError('number too big')
+    return value
+
+
+def shift_left(value, count):
+    return value << min(count, MAX_BITS + 1)
+
+
 class Calc(object):
     tokens = ('NAME', 'CONST16', 'CONST10', 'LSHIFT', 'RSHIFT')
     precedence = (
@@ -28,7 +42,10 @@ class Calc(object):
 
     def eval(self, expr, vars_):
         self.vars = vars_
-        return self.parser.parse(expr, lexer=self.lexer)
+        try:
+            return self.parser.parse(expr, lexer=self.lexer)
+        except ValueError as e:
+            raise ParseError(str(e))
 
     @staticmethod
     def t_CONST16(t):
@@ -78,11 +95,12 @@ class Calc(object):
                 raise ParseError('division by zero')
             p[0] = p[1] // p[3]
         elif p[2] == '<<':
-            p[0] = p[1] << p[3]
+            p[0] = shift_left(p[1], p[3])
         elif p[2] == '>>':
             p[0] = p[1] >> p[3]
         elif p[2] == '|':
             p[0] = p[1] | p[3]
+        check_magnitude(p[0])
 
     @staticmethod
     def p_expression_uminus(p):
@@ -98,18 +116,24 @@ class Calc(object):
     def p_expression_number(p):
         """expression : CONST10
                       | CONST16"""
-        p[0] = p[1]
+        p[0] = check_magnitude(p[1])
 
     def p_expression_name(self, p):
         """expression : NAME"""
         try:
+            visited = set()
             p[0] = p[1]
             while not isinstance(p[0], int):
+                if p[0] in visited:
+                    raise LookupError
+                visited.add(p[0])
                 p[0] = self.vars[p[0]]
         except LookupError:
             raise ParseError("numeric constant '%s' not found" % p[1])
 
     def p_error(self, p):
+        if not p:
+            raise ParseError("unexpected end of expression")
         raise ParseError("syntax error at '%s'" % p.value)
 
 
diff --git a/prophyc/parsers/prophy.py b/prophyc/parsers/prophy.py
index 15c0e01..e0451ab 100755
--- a/prophyc/parsers/prophy.py
+++ b/prophyc/parsers/prophy.py
@@ -4,7 +4,7 @@ from contextlib import contextmanager
 import ply.lex as lex
 import ply.yacc as yacc
 
-from prophyc import file_processor, model, six
+from prophyc import calc, file_processor, model, six
 
 
 def get_column(input_, pos):
@@ -52,7 +52,11 @@ class Parser(object):
 
     def t_CONST10(self, t):
         r'(([1-9]\d*)|0)'
-        t.value = int(t.value)
+        try:
+            t.value = int(t.value)
+        except ValueError:  # python limits number of digits
+            self._parser_error("number too big", t.lexer.lineno, t.lexpos)
+            t.value = 0
         return t
 
     t_LBRACKET = r'\['
@@ -205,6 +209,11 @@ class Parser(object):
 
     def p_constant_def(self, t):
         '''constant_def : CONST unique_id EQUALS expression SEMI'''
+        self._parser_check(
+            -2 ** 63 <= t[4] < 2 ** 64,
+            "constant '{}' exceeds 64 bits".format(t[2]),
+            t.lineno(4), t.lexpos(4)
+        )
         node = model.Constant(t[2], str(t[4]))
         self.constdecls[t[2]] = node
         self.nodes.append(node)
@@ -423,15 +432,22 @@ class Parser(object):
             elif t[2] == '/':
                 t[0] = t[1] // t[3]
             elif t[2] == '<<':
-                t[0] = t[1] << t[3]
+                t[0] = calc.shift_left(t[1], t[3])
             elif t[2] == '>>':
                 t[0] = t[1] >> t[3]
+            calc.check_magnitude(t[0])
         except ZeroDivisionError:
             self._parser_error(
                 'division by zero',
                 t.lineno(1), t.lexpos(1)
             )
             t[0] = 0
+        except (ValueError, calc.ParseError) as e:
+            self._parser_error(
+                str(e),
+                t.lineno(1), t.lexpos(1)
+            )
+            t[0] = 0
         t.slice[0].lineno = t.lineno(1)
         t.slice[0].lexpos = t.lexpos(1)
 
@@ -469,7 +485,11 @@ class Parser(object):
         '''constant : CONST10
                     | CONST8
                     | CONST16'''
-        t[0] = t[1]
+        try:
+            t[0] = calc.check_magnitude(t[1])
+        except calc.ParseError as e:
+            self._parser_error(str(e), t.lineno(1), t.lexpos(1))
+            t[0] = 0
         t.slice[0].lineno = t.lineno(1)
         t.slice[0].lexpos = t.lexpos(1)
 
-- 
2.43.0


From b2b3707918c8c2bcd568ed0af6ebf3d5dc82d707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:26 +0000
Subject: [PATCH 25/49] fix: reject arrays and optionals of types they cannot
 hold

Sizers being arrays or optionals are rejected as well.
---
 prophyc/parsers/prophy.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/prophyc/parsers/prophy.py b/prophyc/parsers/prophy.py
index e0451ab..22b65a9 100755
--- a/prophyc/parsers/prophy.py
+++ b/prophyc/parsers/prophy.py
@@ -145,10 +145,30 @@ class Parser(object):
                     self._parser_check(self._is_type_sizer_compatible(bound.type_name),
                                        "Sizer of '{}' has to be of (unsigned) integer type".format(name),
                                        line, pos)
+                    self._parser_check(not bound.is_array and not bound.optional,
+                                       "Sizer of '{}' can be neither array nor optional".format(name),
+                                       line, pos)
                 else:
                     self._parser_error("Sizer of '{}' has to be defined before the array".format(name),
                                        line, pos)
 
+        for member, line, pos in members:
+            self._parser_check(
+                not member.optional or member.kind == model.Kind.FIXED,
+                "optional field '{}' of dynamic type".format(member.name),
+                line, pos
+            )
+            self._parser_check(
+                not member.size or member.kind == model.Kind.FIXED,
+                "fixed or limited array field '{}' of dynamic type".format(member.name),
+                line, pos
+            )
+            self._parser_check(
+                not member.is_array or member.kind != model.Kind.UNLIMITED,
+                "array field '{}' of unlimited type".format(member.name),
+                line, pos
+            )
+
         for member, line, pos in members[:-1]:
             self._parser_check(
                 not member.greedy and member.kind != model.Kind.UNLIMITED,
-- 
2.43.0


From b2b3d65abfc6c6a3c2da87b26ece87ec223f6517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:37 +0000
Subject: [PATCH 26/49] fix: reject enumerators and discriminators exceeding 32
 bits

---
 prophyc/parsers/prophy.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/prophyc/parsers/prophy.py b/prophyc/parsers/prophy.py
index 22b65a9..5bbfe2b 100755
--- a/prophyc/parsers/prophy.py
+++ b/prophyc/parsers/prophy.py
@@ -129,6 +129,13 @@ class Parser(object):
         if not condition:
             self._parser_error(message, line, pos)
 
+    def _check_32_bits(self, value, what, line, pos):
+        self._parser_check(
+            0 <= value < 2 ** 32,
+            "{} value '{}' out of unsigned 32-bit range".format(what, value),
+            line, pos
+        )
+
     def _validate_struct_members(self, members):
         fieldnames = set()
         for i, (member, line, pos) in enumerate(members):
@@ -261,6 +268,7 @@ class Parser(object):
 
     def p_enum_member(self, t):
         '''enum_member : unique_id EQUALS expression'''
+        self._check_32_bits(t[3], "enumerator", t.lineno(3), t.lexpos(3))
         member = model.EnumMember(t[1], str(t[3]))
         self.constdecls[t[1]] = member
         t[0] = member
@@ -387,6 +395,7 @@ class Parser(object):
 
     def p_union_member(self, t):
         '''union_member : expression COLON type_spec ID'''
+        self._check_32_bits(t[1], "discriminator", t.lineno(1), t.lexpos(1))
         t[0] = (model.UnionMember(t[4], t[3][0], str(t[1]), definition=t[3][1]), t.lineno(4), t.lexpos(4))
 
     def p_type_spec_1(self, t):
-- 
2.43.0


From 19af07b7b0f01ced3c67dc4684e3ed51401d22e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:42:17 +0000
Subject: [PATCH 27/49] fix: generate compilable C++ for enumerators of equal
 values

---
 prophyc/generators/cpp_full.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/prophyc/generators/cpp_full.py b/prophyc/generators/cpp_full.py
index 9aa4b6d..03e77ae 100644
--- a/prophyc/generators/cpp_full.py
+++ b/prophyc/generators/cpp_full.py
@@ -218,6 +218,8 @@ class _CppTranslator(TranslatorBase):
     block_template = CPP_SOURCE_TEMPLATE
 
     def translate_enum(self, node):
+        literals = {m.value: m.name for m in node.members}
+        """enumerators may share value, last one names it like in python codec"""
         return (
                 'template <>\n' +
                 'const char* print_traits<{0}>::to_literal({0} x)\n'.format(node.name) +
@@ -226,7 +228,8 @@ class _CppTranslator(TranslatorBase):
                     'switch (x)\n' +
                     '{\n' +
                     _indent(
-                        ''.join('case {0}: return "{0}";\n'.format(m.name) for m in node.members) +
+                        ''.join('case {0}: return "{0}";\n'.format(m.name) for m in node.members
+                                if literals[m.value] == m.name) +
                         'default: return 0;\n'
                     ) +
                     '}\n'
-- 
2.43.0


From d8870d8687cee608acee3aae8ddb21702bf83750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:42:30 +0000
Subject: [PATCH 28/49] fix: report missing or wrong sizers before generating
 C++

---
 prophyc/generators/base.py     | 15 +++++++++++++++
 prophyc/generators/cpp.py      |  4 +++-
 prophyc/generators/cpp_full.py |  3 ++-
 3 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/prophyc/generators/base.py b/prophyc/generators/base.py
index 3576768..93c677f 100644
--- a/prophyc/generators/base.py
+++ b/prophyc/generators/base.py
@@ -19,6 +19,21 @@ def _make_path(output_dir, base_name, extension):
     return os.path.join(output_dir, base_name + extension)
 
 
+def check_sizers(struct):
+    """Arrays have to be preceded with integer sizers."""
+    occured = {}
+    for member in struct.members:
+        if member.bound:
+            sizer = occured.get(member.bound)
+            leaf = sizer
+            while getattr(leaf, 'definition', None):
+                leaf = leaf.definition
+            if not sizer or sizer.is_array or sizer.optional or getattr(leaf, 'type_name', '')[:1] not in ('u', 'i'):
+                raise GenerateError('Sizer ({}) of array {} in struct {} has to be an integer defined before the array'
+                                    .format(member.bound, member.name, struct.name))
+        occured[member.name] = member
+
+
 class GeneratorAbc(object):
     """
         Generator class implements one language that model is translated to.
diff --git a/prophyc/generators/cpp.py b/prophyc/generators/cpp.py
index 6c2f30a..1546d13 100644
--- a/prophyc/generators/cpp.py
+++ b/prophyc/generators/cpp.py
@@ -1,5 +1,5 @@
 from prophyc import model
-from prophyc.generators.base import GenerateError, GeneratorBase, TranslatorBase
+from prophyc.generators.base import GenerateError, GeneratorBase, TranslatorBase, check_sizers
 
 primitive_types = {
     'u8': 'uint8_t',
@@ -404,3 +404,5 @@ class CppGenerator(GeneratorBase):
         for n in nodes:
             if isinstance(n, (model.Struct, model.Union)) and n.byte_size is None:
                 raise GenerateError('{0} byte size unknown'.format(n.name))
+            if isinstance(n, model.Struct):
+                check_sizers(n)
diff --git a/prophyc/generators/cpp_full.py b/prophyc/generators/cpp_full.py
index 03e77ae..ac6eeb1 100644
--- a/prophyc/generators/cpp_full.py
+++ b/prophyc/generators/cpp_full.py
@@ -1,6 +1,6 @@
 from prophyc import model
 from prophyc.model import DISC_SIZE, BUILTIN_SIZES
-from prophyc.generators.base import GenerateError, GeneratorBase, TranslatorBase
+from prophyc.generators.base import GenerateError, GeneratorBase, TranslatorBase, check_sizers
 
 BUILTIN2C = {
     'i8': 'int8_t',
@@ -628,6 +628,7 @@ class CppFullGenerator(GeneratorBase):
             if isinstance(n, (model.Struct, model.Union)) and n.byte_size is None:
                 raise GenerateError('{0} byte size unknown'.format(n.name))
             if isinstance(n, model.Struct):
+                check_sizers(n)
                 occured = set()
                 for m in n.members:
                     if m.bound:
-- 
2.43.0


From 22f28eecf1757ece854b6019f815f2ffa9e6ae9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:43:05 +0000
Subject: [PATCH 29/49] fix: report names being reserved words of target
 language

---
 prophyc/generators/base.py     | 16 ++++++++++++++++
 prophyc/generators/cpp.py      | 12 +++++++++++-
 prophyc/generators/cpp_full.py |  4 +++-
 prophyc/generators/python.py   |  7 ++++++-
 4 files changed, 36 insertions(+), 3 deletions(-)

diff --git a/prophyc/generators/base.py b/prophyc/generators/base.py
index 93c677f..5b8155a 100644
--- a/prophyc/generators/base.py
+++ b/prophyc/generators/base.py
@@ -34,6 +34,22 @@ def check_sizers(struct):
         occured[member.name] = member
 
 
+def check_names(nodes, reserved, check_fields):
+    """Names ending up as identifiers in generated code can't be reserved words."""
+    def names():
+        for node in nodes:
+            if isinstance(node, model.Include):
+                continue
+            yield node.name
+            if isinstance(node, model.Enum) or (check_fields and isinstance(node, (model.Struct, model.Union))):
+                for member in node.members:
+                    yield member.name
+
+    for name in names():
+        if name in reserved:
+            raise GenerateError("'{}' is a reserved word".format(name))
+
+
 class GeneratorAbc(object):
     """
         Generator class implements one language that model is translated to.
diff --git a/prophyc/generators/cpp.py b/prophyc/generators/cpp.py
index 1546d13..0911fa9 100644
--- a/prophyc/generators/cpp.py
+++ b/prophyc/generators/cpp.py
@@ -1,5 +1,14 @@
 from prophyc import model
-from prophyc.generators.base import GenerateError, GeneratorBase, TranslatorBase, check_sizers
+from prophyc.generators.base import GenerateError, GeneratorBase, TranslatorBase, check_names, check_sizers
+
+KEYWORDS = set("""
+    alignas alignof and and_eq asm auto bitand bitor bool break case catch char char16_t char32_t class compl const
+    constexpr const_cast continue decltype default delete do double dynamic_cast else enum explicit export extern false
+    float for friend goto if inline int long mutable namespace new noexcept not not_eq nullptr operator or or_eq
+    private protected public register reinterpret_cast return short signed sizeof static static_assert static_cast
+    struct switch template this thread_local throw true try typedef typeid typename union unsigned using virtual void
+    volatile wchar_t while xor xor_eq
+""".split())
 
 primitive_types = {
     'u8': 'uint8_t',
@@ -401,6 +410,7 @@ class CppGenerator(GeneratorBase):
     }
 
     def check_nodes(self, nodes):
+        check_names(nodes, KEYWORDS, check_fields=True)
         for n in nodes:
             if isinstance(n, (model.Struct, model.Union)) and n.byte_size is None:
                 raise GenerateError('{0} byte size unknown'.format(n.name))
diff --git a/prophyc/generators/cpp_full.py b/prophyc/generators/cpp_full.py
index ac6eeb1..67acf25 100644
--- a/prophyc/generators/cpp_full.py
+++ b/prophyc/generators/cpp_full.py
@@ -1,6 +1,7 @@
 from prophyc import model
 from prophyc.model import DISC_SIZE, BUILTIN_SIZES
-from prophyc.generators.base import GenerateError, GeneratorBase, TranslatorBase, check_sizers
+from prophyc.generators.base import GenerateError, GeneratorBase, TranslatorBase, check_names, check_sizers
+from prophyc.generators.cpp import KEYWORDS
 
 BUILTIN2C = {
     'i8': 'int8_t',
@@ -624,6 +625,7 @@ class CppFullGenerator(GeneratorBase):
     }
 
     def check_nodes(self, nodes):
+        check_names(nodes, KEYWORDS, check_fields=True)
         for n in nodes:
             if isinstance(n, (model.Struct, model.Union)) and n.byte_size is None:
                 raise GenerateError('{0} byte size unknown'.format(n.name))
diff --git a/prophyc/generators/python.py b/prophyc/generators/python.py
index 01d596f..693fe4c 100644
--- a/prophyc/generators/python.py
+++ b/prophyc/generators/python.py
@@ -1,5 +1,7 @@
+import keyword
+
 from prophyc.generators import word_wrap
-from prophyc.generators.base import GeneratorBase, TranslatorBase
+from prophyc.generators.base import GeneratorBase, TranslatorBase, check_names
 
 libname = u"prophy"
 primitive_types = {x + y: u"%s.%s" % (libname, x + y) for x in u"uir" for y in ["8", "16", "32", "64"]}
@@ -162,3 +164,6 @@ class PythonGenerator(GeneratorBase):
     top_level_translators = {
         ".py": _PythonTranslator
     }
+
+    def check_nodes(self, nodes):
+        check_names(nodes, keyword.kwlist + ["sys", libname], check_fields=False)
-- 
2.43.0


From 285b1cb1d678c5ad02c6e01d0a9f542d858438aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:43:31 +0000
Subject: [PATCH 30/49] fix: order definitions by all constants and enumerators
 they use

Array sizes, discriminators, enumerator values and operands of all
operators are taken into account.
---
 prophyc/model.py | 40 +++++++++++++++++++++++++++++-----------
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/prophyc/model.py b/prophyc/model.py
index 00277b0..14861c6 100644
--- a/prophyc/model.py
+++ b/prophyc/model.py
@@ -1,3 +1,4 @@
+import re
 from itertools import islice
 
 import renew
@@ -98,12 +99,7 @@ class Constant(ModelNode):
                 return None
 
     def dependencies(self):
-        def sub_(x, y):
-            return x.replace(y, " ")
-
-        for symbol in six.reduce(sub_, "()+-", self.value).split():
-            if not symbol.isdigit():
-                yield symbol
+        return _find_symbols(self.value)
 
 
 class EnumMember(Constant):
@@ -208,6 +204,12 @@ class StructMember(Typedef):
     def __str__(self):
         return self.schema_repr()
 
+    def dependencies(self):
+        yield self.type_name
+        if self.size:
+            for symbol in _find_symbols(self.size):
+                yield symbol
+
     def schema_repr(self):
         if self.optional:
             return '{s.type_name}* {s.name};'.format(s=self)
@@ -232,6 +234,11 @@ class UnionMember(Typedef):
         super(UnionMember, self).__init__(name, type_name, definition, docstring)
         self.discriminator = discriminator
 
+    def dependencies(self):
+        yield self.type_name
+        for symbol in _find_symbols(self.discriminator):
+            yield symbol
+
 
 """ Composite kinds """
 
@@ -316,8 +323,10 @@ class Enum(_Container):
     __slots__ = ()
 
     def dependencies(self):
-        for member in self.members:
-            yield member.name
+        own = set(member.name for member in self.members)
+        for dependency in super(Enum, self).dependencies():
+            if dependency not in own:
+                yield dependency
 
 
 class _SerializableContainer(_Container, _Serializable):
@@ -364,6 +373,11 @@ def _check_string(docstring, what_):
     return six.decode_string(docstring)
 
 
+def _find_symbols(expression):
+    """Finds names in expression, omits numbers."""
+    return re.findall(r"\b[A-Za-z_]\w*", str(expression))
+
+
 def split_after(nodes, predicate):
     part = []
     for x in nodes:
@@ -385,9 +399,13 @@ def null_warn(_):
 def topological_sort(nodes):
     """Sorts nodes. Raises ModelError if they depend on each other in a cycle."""
 
+    def defined_names(node):
+        """Enumerators are defined along with enum."""
+        return [node.name] + ([m.name for m in node.members] if isinstance(node, Enum) else [])
+
     def find_first_dep(dependency, start_index):
         for i, n in enumerate(islice(nodes, start_index, None), start_index):
-            if n.name == dependency:
+            if dependency in defined_names(n):
                 return i
 
     def model_sort_rotate():
@@ -400,10 +418,10 @@ def topological_sort(nodes):
                 nodes.insert(index, nodes.pop(found_index))
                 rotated.add(dep)
                 return True
-        known.add(node.name)
+        known.update(defined_names(node))
 
     known = set(x + y for x in "uir" for y in ["8", "16", "32", "64"])
-    available = set(node.name for node in nodes)
+    available = set(name for node in nodes for name in defined_names(node))
     for index in range(len(nodes)):
         rotated = set()
         while model_sort_rotate():
-- 
2.43.0


From f0083212c1e17c7441f7b1301876fadea85b8283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:44:57 +0000
Subject: [PATCH 31/49] fix: fold compound expressions before they reach
 generators

Generated Python divided to floats, C++ wrapped unsigned results and both
use other shift precedence than the one array sizes are calculated with.
---
 prophyc/model.py | 38 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/prophyc/model.py b/prophyc/model.py
index 14861c6..d561ad6 100644
--- a/prophyc/model.py
+++ b/prophyc/model.py
@@ -509,7 +509,42 @@ def to_int(x, constants):
         return int(x)
     except ValueError:
         val = constants.get(x)
-        return val if val is not None else calc.eval(x, constants)
+        return calc.eval(x, constants) if val is None or isinstance(val, six.string_types) else val
+
+
+def fold_expressions(nodes, constants):
+    """
+    Replaces expressions by their values, because target languages could evaluate them differently.
+    Plain numbers and names stay as they are, except for enumerators, which could name ones not defined yet.
+    """
+
+    def is_folded(expression):
+        return re.match(r"^(-?(0x[0-9a-fA-F]+|[1-9]\d*|0)|[A-Za-z_]\w*)$", str(expression))
+
+    def fold(expression):
+        try:
+            return str(to_int(expression, constants))
+        except calc.ParseError:
+            return expression
+
+    for node in nodes:
+        if isinstance(node, Constant):
+            if not is_folded(node.value):
+                node._value = fold(node.value)
+        elif isinstance(node, Enum):
+            for member in node.members:
+                if not is_folded(member.value) or _find_symbols(member.value):
+                    value = constants.get(member.name)
+                    if value is not None:
+                        member._value = str(value if value >= 0 else 2 ** 32 + value)
+        elif isinstance(node, Struct):
+            for member in node.members:
+                if member.size and not is_folded(member.size):
+                    member.size = fold(member.size)
+        elif isinstance(node, Union):
+            for member in node.members:
+                if not is_folded(member.discriminator):
+                    member.discriminator = fold(member.discriminator)
 
 
 def evaluate_stiffness_kinds(nodes):
@@ -643,6 +678,7 @@ def partition(members):
 def evaluate_model(nodes, warn_emitter=lambda x: None):
     topological_sort(nodes)
     constants = cross_reference(nodes, warn_emitter)
+    fold_expressions(nodes, constants)
     evaluate_stiffness_kinds(nodes)
     evaluate_sizes(nodes, warn_emitter)
     return nodes, constants
-- 
2.43.0


From 491fc609bd74b4f0953060d229da5cf8123b25eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:45:28 +0000
Subject: [PATCH 32/49] fix: report typedefs redefined in a cycle and constants
 used as types

---
 prophyc/model.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/prophyc/model.py b/prophyc/model.py
index d561ad6..7a61b60 100644
--- a/prophyc/model.py
+++ b/prophyc/model.py
@@ -480,9 +480,14 @@ def cross_reference(nodes, warn=null_warn):
             node_.definition = None
             return
         found = types_index.get(node_.type_name)
-        if not found:
+        if not isinstance(found, (Typedef, Enum, Struct, Union)):
             warn("type '%s' not found" % node_.type_name)
+            found = None
         node_.definition = found
+        while isinstance(found, Typedef):
+            if found is node_:
+                raise ModelError("Definition of '%s' is recursive." % node_.name)
+            found = found.definition
 
     def evaluate_array_sizes(node_):
         if node_.size:
-- 
2.43.0


From 125d0126d82c536dc58b6c36d13808b8c6c1738c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:45:41 +0000
Subject: [PATCH 33/49] fix: report patch lines without action

---
 prophyc/patch.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/prophyc/patch.py b/prophyc/patch.py
index e6ae894..c442129 100644
--- a/prophyc/patch.py
+++ b/prophyc/patch.py
@@ -12,6 +12,8 @@ def parse(filename):
         for line in f.readlines():
             if line.strip():
                 words = line.split()
+                if len(words) < 2:
+                    raise Exception("Patch needs name and action: %s" % line.strip())
                 name, action = words[:2]
                 params = words[2:]
                 patches[name].append(Action(action, params))
-- 
2.43.0


From cdddfcba557c11427ebd05d2773ebbe8f4d3f438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:45:54 +0000
Subject: [PATCH 34/49] fix: let array patches override greedy patch

---
 prophyc/patch.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/prophyc/patch.py b/prophyc/patch.py
index c442129..81011b8 100644
--- a/prophyc/patch.py
+++ b/prophyc/patch.py
@@ -100,6 +100,7 @@ def _dynamic(node, patch_):
     mem = node.members[i]
     mem.bound = len_name
     mem.size = None
+    mem.greedy = False
     mem.optional = False
     return node
 
@@ -136,12 +137,10 @@ def _static(node, patch_):
     if not member:
         raise Exception("Member not found: %s %s" % (node.name, patch_))
 
-    node.members[i].bound = None
-    node.members[i].size = None
-
     mem = node.members[i]
     mem.bound = None
     mem.size = size
+    mem.greedy = False
     mem.optional = False
     return node
 
@@ -164,6 +163,7 @@ def _limited(node, patch_):
 
     mem = node.members[i]
     mem.bound = len_array
+    mem.greedy = False
     mem.optional = False
     return node
 
-- 
2.43.0


From cf65980ac941a1d719b8305d3f1149440c579017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:46:29 +0000
Subject: [PATCH 35/49] fix: report malformed xml and missing isar attributes

---
 prophyc/parsers/isar.py | 58 +++++++++++++++++++++++++++--------------
 prophyc/patch.py        |  3 ++-
 2 files changed, 40 insertions(+), 21 deletions(-)

diff --git a/prophyc/parsers/isar.py b/prophyc/parsers/isar.py
index 0567e94..a97fca1 100644
--- a/prophyc/parsers/isar.py
+++ b/prophyc/parsers/isar.py
@@ -57,9 +57,20 @@ primitive_types = {"8 bit integer unsigned": "u8",
                    "64 bit float": "r64"}
 
 
+class IsarError(model.ModelError, ValueError):
+    """Wrong content of xml file."""
+
+
+def get_required(xml_elem, attribute):
+    value = xml_elem.get(attribute)
+    if not value:
+        raise IsarError("Missing '{}' attribute in <{}> element.".format(attribute, xml_elem.tag))
+    return value
+
+
 def make_include(xml_elem, process_file, warn):
     if "include" in xml_elem.tag:
-        path = xml_elem.get("href")
+        path = get_required(xml_elem, "href")
         try:
             nodes = process_file(path)
         except (CyclicIncludeError, FileNotFoundError) as e:
@@ -75,8 +86,8 @@ def get_docstr(xml_elem):
 
 def make_constant(xml_elem):
     return model.Constant(
-        xml_elem.get("name"),
-        expand_operators(xml_elem.get("value")),
+        get_required(xml_elem, "name"),
+        expand_operators(get_required(xml_elem, "value")),
         docstring=get_docstr(xml_elem)
     )
 
@@ -84,15 +95,18 @@ def make_constant(xml_elem):
 def make_typedef(xml_elem):
     if "type" in xml_elem.attrib:
         return model.Typedef(
-            xml_elem.get("name"),
-            xml_elem.get("type"),
+            get_required(xml_elem, "name"),
+            get_required(xml_elem, "type"),
             docstring=get_docstr(xml_elem)
         )
 
     elif "primitiveType" in xml_elem.attrib and xml_elem.get("name") not in primitive_types.values():
+        primitive_type = primitive_types.get(xml_elem.get("primitiveType"))
+        if not primitive_type:
+            raise IsarError("Unknown primitiveType '{}'.".format(xml_elem.get("primitiveType")))
         return model.Typedef(
-            xml_elem.get("name"),
-            primitive_types[xml_elem.get("primitiveType")],
+            get_required(xml_elem, "name"),
+            primitive_type,
             docstring=get_docstr(xml_elem)
         )
 
@@ -102,13 +116,13 @@ def make_enum(xml_elem):
         values = set()
         for m in enum_obj.members:
             if m.value in values:
-                raise ValueError("Duplicate Enum value in '{}', value '{}'.".format(enum_obj.name, m.value))
+                raise IsarError("Duplicate Enum value in '{}', value '{}'.".format(enum_obj.name, m.value))
             values.add(m.value)
 
     if len(xml_elem):
         members = []
         for member in xml_elem:
-            value = member.get('value')
+            value = get_required(member, "value")
             try:
                 int_value = int(value, 0)
                 if int_value < 0:
@@ -116,19 +130,19 @@ def make_enum(xml_elem):
             except ValueError:
                 pass
             members.append(model.EnumMember(
-                member.get("name"),
+                get_required(member, "name"),
                 expand_operators(value),
                 docstring=get_docstr(member))
             )
 
-        enum = model.Enum(xml_elem.get("name"), members, docstring=get_docstr(xml_elem))
+        enum = model.Enum(get_required(xml_elem, "name"), members, docstring=get_docstr(xml_elem))
         check_for_duplicates(enum)
         return enum
 
 
 def make_struct_members(xml_elem, dynamic_array=False):
-    xml_elem_name = xml_elem.get("name")
-    xml_elem_type = xml_elem.get("type")
+    xml_elem_name = get_required(xml_elem, "name")
+    xml_elem_type = get_required(xml_elem, "type")
     optional = xml_elem.get("optional")
     optional = bool(optional) and optional.lower() == "true"
     dimension = xml_elem.find("dimension")
@@ -172,7 +186,7 @@ def make_struct(xml_elem, last_member_array_is_dynamic=False):
         for member in xml_elem:
             for sub_ in make_struct_members(member, last_member_array_is_dynamic):
                 members.append(sub_)
-        return model.Struct(xml_elem.get("name"), members, docstring=get_docstr(xml_elem))
+        return model.Struct(get_required(xml_elem, "name"), members, docstring=get_docstr(xml_elem))
 
 
 def make_union(xml_elem):
@@ -180,12 +194,12 @@ def make_union(xml_elem):
         members = []
         for member in xml_elem:
             members.append(model.UnionMember(
-                member.get("name"),
-                member.get("type"),
-                member.get("discriminatorValue"),
+                get_required(member, "name"),
+                get_required(member, "type"),
+                get_required(member, "discriminatorValue"),
                 docstring=get_docstr(member),
             ))
-        return model.Union(xml_elem.get('name'), members, docstring=get_docstr(xml_elem))
+        return model.Union(get_required(xml_elem, "name"), members, docstring=get_docstr(xml_elem))
 
 
 class IsarParser(object):
@@ -193,14 +207,18 @@ class IsarParser(object):
     def __init__(self, warn=None):
         self.warn = warn
 
-    def parse(self, content, _, process_file):
+    def parse(self, content, path, process_file):
         # by default FileProcessor decodes files while opening in _process_file method,
         # but ElementTree doesn't like it. ElementTree handles the encoding on its own,
         # so it's OK to encode the data back into utf-8 before parsing
         content = content.encode('utf-8')
 
         def collect():
-            root = ElementTree.fromstring(content)
+            try:
+                root = ElementTree.fromstring(content)
+            except ElementTree.ParseError as e:
+                line, column = e.position
+                raise model.ParseError([("%s:%s:%s" % (path, line, column + 1), str(e))])
             for xml_elem in root.iterfind('.//*[@href]'):
                 yield make_include(xml_elem, process_file, self.warn)
 
diff --git a/prophyc/patch.py b/prophyc/patch.py
index 81011b8..ae34080 100644
--- a/prophyc/patch.py
+++ b/prophyc/patch.py
@@ -63,7 +63,8 @@ def _insert(node, patch_):
 
     if not _is_int(index):
         raise Exception("Index is not a number: %s %s" % (node.name, patch_))
-    index = int(index)
+    index = min(int(index), len(node.members))
+    index = max(index, -len(node.members))
 
     node.members.insert(index, model.StructMember(name, tp))
     return node
-- 
2.43.0


From 0d72117b407b3b1d058e01b9baf57e6ffcdf7f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:46:56 +0000
Subject: [PATCH 36/49] fix: report unreadable files and output failures

---
 prophyc/__init__.py       |  8 +++++---
 prophyc/file_processor.py | 14 +++++++++++---
 prophyc/parsers/isar.py   |  2 ++
 prophyc/patch.py          |  6 +++++-
 4 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/prophyc/__init__.py b/prophyc/__init__.py
index a7c3e00..ba950bf 100644
--- a/prophyc/__init__.py
+++ b/prophyc/__init__.py
@@ -6,7 +6,7 @@ from contextlib import contextmanager
 
 from . import model
 from . import options
-from .file_processor import FileProcessor
+from .file_processor import FileProcessor, FileReadError
 from .generators.base import GenerateError
 
 __version__ = '1.2.5'
@@ -150,7 +150,7 @@ def generate_target_files(emit, serializers, model_nodes):
         for serializer in serializers:
             try:
                 serializer.serialize(nodes, basename)
-            except GenerateError as e:
+            except (GenerateError, EnvironmentError) as e:
                 emit.error(str(e))
 
 
@@ -160,5 +160,7 @@ def error_on_exception(emit):
         yield
     except model.ParseError as e:
         emit.error('\n'.join(('%s: error: %s' % err for err in e.errors)))
-    except model.ModelError as e:
+    except (model.ModelError, FileReadError) as e:
         emit.error(str(e))
+    except RuntimeError:  # recursion limit exceeded
+        emit.error("includes nested too deeply")
diff --git a/prophyc/file_processor.py b/prophyc/file_processor.py
index 1ab3f99..1bebce7 100644
--- a/prophyc/file_processor.py
+++ b/prophyc/file_processor.py
@@ -13,10 +13,15 @@ class FileNotFoundError(Exception):
         Exception.__init__(self, "file %s not found" % path)
 
 
+class FileReadError(Exception):
+    def __init__(self, path, reason):
+        Exception.__init__(self, "file %s not readable: %s" % (path, reason))
+
+
 def _get_first_existing_path(leaf, dirs):
     for directory in dirs:
         path = os.path.join(directory, leaf)
-        if os.path.exists(path):
+        if os.path.isfile(path):
             return path
 
 
@@ -80,8 +85,11 @@ class FileProcessor(object):
             return self.files[abspath]
         self.files[abspath] = None
 
-        with codecs.open(path, 'r', encoding='utf-8') as f:
-            content = f.read()
+        try:
+            with codecs.open(path, 'r', encoding='utf-8') as f:
+                content = f.read()
+        except (EnvironmentError, UnicodeError) as e:
+            raise FileReadError(path, e)
         result = self.process_content(content, path, lambda leaf: self.process_leaf(leaf))
         self.files[abspath] = result
         return result
diff --git a/prophyc/parsers/isar.py b/prophyc/parsers/isar.py
index a97fca1..a627558 100644
--- a/prophyc/parsers/isar.py
+++ b/prophyc/parsers/isar.py
@@ -219,6 +219,8 @@ class IsarParser(object):
             except ElementTree.ParseError as e:
                 line, column = e.position
                 raise model.ParseError([("%s:%s:%s" % (path, line, column + 1), str(e))])
+            except (LookupError, ValueError) as e:  # wrong encoding declared
+                raise model.ParseError([(path, str(e))])
             for xml_elem in root.iterfind('.//*[@href]'):
                 yield make_include(xml_elem, process_file, self.warn)
 
diff --git a/prophyc/patch.py b/prophyc/patch.py
index ae34080..f7437a1 100644
--- a/prophyc/patch.py
+++ b/prophyc/patch.py
@@ -9,7 +9,11 @@ Action = namedtuple("Action", ["action", "params"])
 def parse(filename):
     patches = defaultdict(list)
     with codecs.open(filename, "r", encoding="utf-8") as f:
-        for line in f.readlines():
+        try:
+            lines = f.readlines()
+        except UnicodeError as e:
+            raise Exception("Patch file not readable: %s" % e)
+        for line in lines:
             if line.strip():
                 words = line.split()
                 if len(words) < 2:
-- 
2.43.0


From d72f649e769bff12ed092bf5ee09024713d055d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:47:22 +0000
Subject: [PATCH 37/49] fix: report input files with the same output name

---
 prophyc/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/prophyc/__init__.py b/prophyc/__init__.py
index ba950bf..fcf39d6 100644
--- a/prophyc/__init__.py
+++ b/prophyc/__init__.py
@@ -58,10 +58,13 @@ def main(args):
     model_parser = model.ModelParser(source_parser, patcher, emit)
     file_processor_ = FileProcessor(model_parser, opts.include_dirs)
 
+    inputs = {}
     for input_file in opts.input_files:
         with error_on_exception(emit):
             nodes = file_processor_(input_file)
             basename = get_basename(input_file)
+            if inputs.setdefault(basename, nodes) is not nodes:
+                emit.error("input files named '%s' would overwrite each other's output" % basename)
             model_nodes[basename] = nodes
 
     generate_target_files(emit, serializers, model_nodes)
-- 
2.43.0


From 7515df4570540950425bae0bcdfe87ecbf0bf84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:47:33 +0000
Subject: [PATCH 38/49] fix: report names redefined by included files

---
 prophyc/parsers/prophy.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/prophyc/parsers/prophy.py b/prophyc/parsers/prophy.py
index 5bbfe2b..27280d5 100755
--- a/prophyc/parsers/prophy.py
+++ b/prophyc/parsers/prophy.py
@@ -222,14 +222,23 @@ class Parser(object):
             self._parser_error(str(e), t.lineno(3), t.lexpos(3))
             nodes = []
 
+        def declare(decls, node):
+            known = self.typedecls.get(node.name) or self.constdecls.get(node.name)
+            self._parser_check(
+                not known or known is node,
+                "name '{}' redefined".format(node.name),
+                t.lineno(3), t.lexpos(3)
+            )
+            decls[node.name] = node
+
         for node in nodes:
             if isinstance(node, model.Constant):
-                self.constdecls[node.name] = node
+                declare(self.constdecls, node)
             if isinstance(node, model.Enum):
                 for mem in node.members:
-                    self.constdecls[mem.name] = mem
+                    declare(self.constdecls, mem)
             if isinstance(node, (model.Typedef, model.Enum, model.Struct, model.Union)):
-                self.typedecls[node.name] = node
+                declare(self.typedecls, node)
 
         node = model.Include(stem, nodes)
         self.nodes.append(node)
-- 
2.43.0


From e395cb7b3602b2c3c7fcaaa89984f1a81703a62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:48:24 +0000
Subject: [PATCH 39/49] fix: fold enumerators of included files

Generated Python modules import only types and constants of included
modules, so names of their enumerators are unknown there.
---
 prophyc/model.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/prophyc/model.py b/prophyc/model.py
index 7a61b60..356a77b 100644
--- a/prophyc/model.py
+++ b/prophyc/model.py
@@ -520,11 +520,21 @@ def to_int(x, constants):
 def fold_expressions(nodes, constants):
     """
     Replaces expressions by their values, because target languages could evaluate them differently.
-    Plain numbers and names stay as they are, except for enumerators, which could name ones not defined yet.
+    Plain numbers and names stay as they are, except for enumerators, which could name ones not defined yet,
+    and names of included enumerators, which generated python code doesn't import.
     """
 
+    def get_enumerators(nodes_):
+        for node_ in nodes_:
+            if isinstance(node_, Enum):
+                for member_ in node_.members:
+                    yield member_.name
+
+    included = set(name for node in nodes if isinstance(node, Include)
+                   for name in get_enumerators(node.defined_symbols()))
+
     def is_folded(expression):
-        return re.match(r"^(-?(0x[0-9a-fA-F]+|[1-9]\d*|0)|[A-Za-z_]\w*)$", str(expression))
+        return expression not in included and re.match(r"^(-?(0x[0-9a-fA-F]+|[1-9]\d*|0)|[A-Za-z_]\w*)$", str(expression))
 
     def fold(expression):
         try:
-- 
2.43.0


From 4aedbbcf7cc7aa38c7d5097650095fb40266bf7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:53:48 +0000
Subject: [PATCH 40/49] fix: print floating point numbers in Python the way C++
 does

---
 prophy/composite.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/prophy/composite.py b/prophy/composite.py
index 5ced057..bf2a3d1 100644
--- a/prophy/composite.py
+++ b/prophy/composite.py
@@ -32,6 +32,8 @@ def field_to_string(name, type_, value):
         return "%s: %s\n" % (name, repr_bytes(value or b""))
     elif issubclass(type_, enum):
         return "%s: %s\n" % (name, type_._int_to_name[value])
+    elif issubclass(type_, float):
+        return "%s: %g\n" % (name, value)
     else:
         return "%s: %s\n" % (name, value)
 
-- 
2.43.0


From 64515a03ae17fab7e50a149b295ba57c56eb1786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:59:02 +0000
Subject: [PATCH 41/49] fix: report assignment to composite array elements with
 ProphyError

---
 prophy/container.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/prophy/container.py b/prophy/container.py
index a9702c0..bc17375 100644
--- a/prophy/container.py
+++ b/prophy/container.py
@@ -143,6 +143,12 @@ class fixed_composite_array(base_array):
         super(fixed_composite_array, self).__init__()
         self._values = [self._TYPE() for _ in xrange(self._max_len)]
 
+    def __setitem__(self, idx, value):
+        raise ProphyError("assignment to composite array elements not allowed")
+
+    def __setslice__(self, start, stop, values):
+        self[slice(start, stop)] = values
+
     def __eq__(self, other):
         return composite_array_eq(self, other)
 
@@ -189,6 +195,12 @@ class bound_composite_array(base_array):
             new_elements.append(new_element)
         self._values.extend(new_elements)
 
+    def __setitem__(self, idx, value):
+        raise ProphyError("assignment to composite array elements not allowed")
+
+    def __setslice__(self, start, stop, values):
+        self[slice(start, stop)] = values
+
     def __delitem__(self, idx):
         del self._values[idx]
 
-- 
2.43.0


From f15aa46589c93090af24ffaed9031227089017e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:18:04 +0000
Subject: [PATCH 42/49] fix: report unlimited fields which aren't last in C++
 generators

---
 prophyc/generators/base.py     | 8 ++++++++
 prophyc/generators/cpp.py      | 3 ++-
 prophyc/generators/cpp_full.py | 3 ++-
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/prophyc/generators/base.py b/prophyc/generators/base.py
index 5b8155a..58b3b03 100644
--- a/prophyc/generators/base.py
+++ b/prophyc/generators/base.py
@@ -34,6 +34,14 @@ def check_sizers(struct):
         occured[member.name] = member
 
 
+def check_unlimited(struct):
+    """Only the last member may extend to the end of message."""
+    for member in struct.members[:-1]:
+        if member.greedy or member.kind == model.Kind.UNLIMITED:
+            raise GenerateError('Unlimited field {} has to be the last one in struct {}'
+                                .format(member.name, struct.name))
+
+
 def check_names(nodes, reserved, check_fields):
     """Names ending up as identifiers in generated code can't be reserved words."""
     def names():
diff --git a/prophyc/generators/cpp.py b/prophyc/generators/cpp.py
index 0911fa9..2ba1c70 100644
--- a/prophyc/generators/cpp.py
+++ b/prophyc/generators/cpp.py
@@ -1,5 +1,5 @@
 from prophyc import model
-from prophyc.generators.base import GenerateError, GeneratorBase, TranslatorBase, check_names, check_sizers
+from prophyc.generators.base import GenerateError, GeneratorBase, TranslatorBase, check_names, check_sizers, check_unlimited
 
 KEYWORDS = set("""
     alignas alignof and and_eq asm auto bitand bitor bool break case catch char char16_t char32_t class compl const
@@ -416,3 +416,4 @@ class CppGenerator(GeneratorBase):
                 raise GenerateError('{0} byte size unknown'.format(n.name))
             if isinstance(n, model.Struct):
                 check_sizers(n)
+                check_unlimited(n)
diff --git a/prophyc/generators/cpp_full.py b/prophyc/generators/cpp_full.py
index 67acf25..4227fc7 100644
--- a/prophyc/generators/cpp_full.py
+++ b/prophyc/generators/cpp_full.py
@@ -1,6 +1,6 @@
 from prophyc import model
 from prophyc.model import DISC_SIZE, BUILTIN_SIZES
-from prophyc.generators.base import GenerateError, GeneratorBase, TranslatorBase, check_names, check_sizers
+from prophyc.generators.base import GenerateError, GeneratorBase, TranslatorBase, check_names, check_sizers, check_unlimited
 from prophyc.generators.cpp import KEYWORDS
 
 BUILTIN2C = {
@@ -631,6 +631,7 @@ class CppFullGenerator(GeneratorBase):
                 raise GenerateError('{0} byte size unknown'.format(n.name))
             if isinstance(n, model.Struct):
                 check_sizers(n)
+                check_unlimited(n)
                 occured = set()
                 for m in n.members:
                     if m.bound:
-- 
2.43.0


From 7f023b9179ea6ffe710252e66561b9aa76cd52cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:18:14 +0000
Subject: [PATCH 43/49] fix: reject enumerators named as their enum

---
 prophyc/parsers/prophy.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/prophyc/parsers/prophy.py b/prophyc/parsers/prophy.py
index 27280d5..9e2f856 100755
--- a/prophyc/parsers/prophy.py
+++ b/prophyc/parsers/prophy.py
@@ -256,6 +256,11 @@ class Parser(object):
 
     def p_enum_def(self, t):
         '''enum_def : ENUM unique_id enum_body SEMI'''
+        self._parser_check(
+            t[2] not in (member.name for member in t[3]),
+            "name '{}' redefined".format(t[2]),
+            t.lineno(2), t.lexpos(2)
+        )
         try:
             node = model.Enum(t[2], t[3])
             self.typedecls[t[2]] = node
-- 
2.43.0


From d3b14c1ee5918d36c1f771128cae537ce7a1e7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:48:03 +0000
Subject: [PATCH 44/49] fix: make C++ full sources of empty schemas compile

---
 prophy_cpp/include/prophy/detail/message.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/prophy_cpp/include/prophy/detail/message.hpp b/prophy_cpp/include/prophy/detail/message.hpp
index 2d22af9..e26bea5 100644
--- a/prophy_cpp/include/prophy/detail/message.hpp
+++ b/prophy_cpp/include/prophy/detail/message.hpp
@@ -11,6 +11,11 @@
 
 namespace prophy
 {
+namespace generated
+{
+// generated sources use this namespace even if schema defines nothing
+}
+
 namespace detail
 {
 
-- 
2.43.0


From c82699d8bd84f1444b50b6bbac7fb78244ddbf7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:14:50 +0000
Subject: [PATCH 45/49] fix: quote bytes the same way in Python and C++ text

---
 prophy/six.py                                | 4 ++--
 prophy_cpp/include/prophy/detail/printer.hpp | 1 +
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/prophy/six.py b/prophy/six.py
index 9a11677..c39a715 100644
--- a/prophy/six.py
+++ b/prophy/six.py
@@ -8,7 +8,7 @@ if sys.version < '3':  # pragma: no cover
     xrange = xrange
 
     def repr_bytes(x):
-        return repr(x)
+        return "'" + repr('"' + x)[2:]
 
 else:  # pragma: no cover
     long = int
@@ -16,7 +16,7 @@ else:  # pragma: no cover
     xrange = range
 
     def repr_bytes(x):
-        return repr(x)[1:]
+        return "'" + repr(b'"' + x)[3:]
 
 
 def with_metaclass(meta, *bases):
diff --git a/prophy_cpp/include/prophy/detail/printer.hpp b/prophy_cpp/include/prophy/detail/printer.hpp
index c525751..2dfb258 100644
--- a/prophy_cpp/include/prophy/detail/printer.hpp
+++ b/prophy_cpp/include/prophy/detail/printer.hpp
@@ -28,6 +28,7 @@ inline void print_byte(std::ostream& out, uint8_t x)
         case 9: out << "\\t"; return;
         case 10: out << "\\n"; return;
         case 13: out << "\\r"; return;
+        case 39: out << "\\'"; return;
         case 92: out << "\\\\"; return;
     }
     if ((x >= 32) && (x <= 126))
-- 
2.43.0


From 3da81e03b407f607e473347f41165b97a8801d45 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 09:46:11 +0000
Subject: [PATCH 46/49] fix: evaluate isar array sizes and discriminators of
 expressions as written

A two-dimensional array of size='A+1' size2='2' had A+1*2 elements.
Operators like shiftLeft weren't expanded in sizes and discriminators.
---
 prophyc/parsers/isar.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/prophyc/parsers/isar.py b/prophyc/parsers/isar.py
index a627558..c6ee8f3 100644
--- a/prophyc/parsers/isar.py
+++ b/prophyc/parsers/isar.py
@@ -1,4 +1,5 @@
 import os
+import re
 import xml.etree.ElementTree as ElementTree
 
 from prophyc import model, six
@@ -45,6 +46,11 @@ def expand_operators(string_):
     return string_
 
 
+def parenthesize(expression):
+    """Plain numbers and names don't need parentheses."""
+    return expression if re.match(r"^\w+$", str(expression)) else "({})".format(expression)
+
+
 primitive_types = {"8 bit integer unsigned": "u8",
                    "16 bit integer unsigned": "u16",
                    "32 bit integer unsigned": "u32",
@@ -152,10 +158,10 @@ def make_struct_members(xml_elem, dynamic_array=False):
         if dimension is None:
             yield model.StructMember(xml_elem_name, xml_elem_type, optional=optional, docstring=comment)
         else:
-            size = dimension.get("size", None)
-            size2 = dimension.get("size2", None)
+            size = expand_operators(dimension.get("size", "")) or None
+            size2 = expand_operators(dimension.get("size2", "")) or None
             if size2:
-                size = "{}*{}".format(size, size2)
+                size = "{}*{}".format(parenthesize(size), parenthesize(size2))
             if optional:
                 yield model.StructMember("has_" + xml_elem_name, "u32", docstring="implicit enabler for optional field")
 
@@ -196,7 +202,7 @@ def make_union(xml_elem):
             members.append(model.UnionMember(
                 get_required(member, "name"),
                 get_required(member, "type"),
-                get_required(member, "discriminatorValue"),
+                expand_operators(get_required(member, "discriminatorValue")),
                 docstring=get_docstr(member),
             ))
         return model.Union(get_required(xml_elem, "name"), members, docstring=get_docstr(xml_elem))
-- 
2.43.0


From 20f082ab87a1927c9490a328cd81e097fa386a35 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 09:46:11 +0000
Subject: [PATCH 47/49] fix: compare enumerator values as numbers in generated
 C++

Enumerators of 16 and 0x10 gave duplicate cases, which don't compile.
---
 prophyc/generators/cpp_full.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/prophyc/generators/cpp_full.py b/prophyc/generators/cpp_full.py
index 4227fc7..62ab2f0 100644
--- a/prophyc/generators/cpp_full.py
+++ b/prophyc/generators/cpp_full.py
@@ -72,6 +72,13 @@ def _get_cpp_builtin_type(node):
     return BUILTIN2C[_get_leaf(node).type_name]
 
 
+def _to_number(value):
+    try:
+        return int(value, 0)
+    except ValueError:
+        return value
+
+
 def _to_literal(value):
     try:
         return '{}{}'.format(value, int(value, 0) > 0 and 'u' or '')
@@ -219,7 +226,7 @@ class _CppTranslator(TranslatorBase):
     block_template = CPP_SOURCE_TEMPLATE
 
     def translate_enum(self, node):
-        literals = {m.value: m.name for m in node.members}
+        literals = {_to_number(m.value): m.name for m in node.members}
         """enumerators may share value, last one names it like in python codec"""
         return (
                 'template <>\n' +
@@ -230,7 +237,7 @@ class _CppTranslator(TranslatorBase):
                     '{\n' +
                     _indent(
                         ''.join('case {0}: return "{0}";\n'.format(m.name) for m in node.members
-                                if literals[m.value] == m.name) +
+                                if literals[_to_number(m.value)] == m.name) +
                         'default: return 0;\n'
                     ) +
                     '}\n'
-- 
2.43.0


From 53d2d472a23d9c88a1eb80cec145e769f9659d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:35:31 +0000
Subject: [PATCH 48/49] fix: escape comments of isar constants in generated
 Python

---
 prophyc/generators/python.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/prophyc/generators/python.py b/prophyc/generators/python.py
index 693fe4c..c1e2384 100644
--- a/prophyc/generators/python.py
+++ b/prophyc/generators/python.py
@@ -98,6 +98,7 @@ else:
         content = u"%s = %s" % (constant.name, constant.value)
         doc = constant.docstring
         if doc:
+            doc = doc.replace(u"\\", u"\\\\").replace(u"'", u"\\'")
             content = u"\'\'\'{}\'\'\'\n{}".format(doc, content)
         return content
 
-- 
2.43.0


From 781af5ff00b54450e7a282f762a7fbe089150f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 12:00:15 +0000
Subject: [PATCH 49/49] fix: don't take types for values of enumerators of the
 same name

---
 prophyc/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prophyc/model.py b/prophyc/model.py
index 356a77b..57579e5 100644
--- a/prophyc/model.py
+++ b/prophyc/model.py
@@ -550,7 +550,7 @@ def fold_expressions(nodes, constants):
             for member in node.members:
                 if not is_folded(member.value) or _find_symbols(member.value):
                     value = constants.get(member.name)
-                    if value is not None:
+                    if value is not None and not isinstance(value, six.string_types):
                         member._value = str(value if value >= 0 else 2 ** 32 + value)
         elif isinstance(node, Struct):
             for member in node.members:
-- 
2.43.0

