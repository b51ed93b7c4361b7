From 5c2cc3bf6fbe3f6bfcaef2a1d0af6d7e8f65c6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:00 +0000
Subject: [PATCH 01/32] fix: reject circular imports and recursive types
 instead of looping forever

generate-cfs, generate-c and generate-binary never returned for a bundle
whose modules import each other or whose types contain themselves (the
documentation says that circular imports are not allowed).
---
 .../asn1/validation/asn1_bundle_validator.py  | 36 +++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/asn1_parser/asn1/validation/asn1_bundle_validator.py b/asn1_parser/asn1/validation/asn1_bundle_validator.py
index 97e948c..0b4a60c 100644
--- a/asn1_parser/asn1/validation/asn1_bundle_validator.py
+++ b/asn1_parser/asn1/validation/asn1_bundle_validator.py
@@ -2,7 +2,9 @@ from typing import List, Union, Dict
 
 from asn1_parser.asn1.asn1_bundle import ASN1Bundle
 from asn1_parser.asn1.grammar_elements.asn1_module import Asn1Module
+from asn1_parser.asn1.grammar_elements.choice import Choice
 from asn1_parser.asn1.grammar_elements.definitions import Definitions
+from asn1_parser.asn1.grammar_elements.sequence import Sequence
 from asn1_parser.asn1.processor import (
     model_processor_check_used_components_defined,
 )
@@ -35,6 +37,40 @@ class ASN1BundleValidator:
     def validate_bundle(bundle: ASN1Bundle) -> None:
         ASN1BundleValidator._check_imported_types_and_check_components(bundle)
         ASN1BundleValidator._check_bundle_for_duplicate_definitions(bundle)
+        ASN1BundleValidator._check_circular_dependencies(bundle)
+
+    @staticmethod
+    def _check_circular_dependencies(bundle: ASN1Bundle) -> None:
+        imports: Dict[str, List[str]] = {}
+        types: Dict[str, List[str]] = {}
+        for module in bundle.get_modules():
+            imports[module.get_module_name()] = [
+                item.get_module_name() for item in module.get_import_items()
+            ]
+            for definition in module.get_definitions():
+                if isinstance(definition, (Sequence, Choice)):
+                    types[definition.get_type_name()] = [
+                        item.get_asn_type().get_type_name()
+                        for item in definition.get_children()
+                    ]
+
+        for what, graph in (("imports", imports), ("types", types)):
+            # Remove everything which only depends on things removed before,
+            # until nothing is left or nothing can be removed anymore.
+            remaining = dict(graph)
+            while remaining:
+                resolved = [
+                    name
+                    for name, dependencies in remaining.items()
+                    if not any(dep in remaining for dep in dependencies)
+                ]
+                if not resolved:
+                    raise ASN1ConsistencyError(
+                        f"Circular {what} are not allowed: "
+                        f"{', '.join(sorted(remaining))}"
+                    )
+                for name in resolved:
+                    del remaining[name]
 
     @staticmethod
     def _check_imported_types_and_check_components(bundle: ASN1Bundle) -> None:
-- 
2.43.0


From 686f3dcca4c8351f87e3bf8a2336256aa96ea38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:12 +0000
Subject: [PATCH 02/32] fix: generate signed integers with their size in C

A signed INTEGER range was always generated as 'int', whatever its size,
so a 64-bit range was truncated and the C struct did not match the
COSMOS packet.
---
 asn1_parser/generators/generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1_parser/generators/generator.py b/asn1_parser/generators/generator.py
index 6573cd1..8d133f5 100644
--- a/asn1_parser/generators/generator.py
+++ b/asn1_parser/generators/generator.py
@@ -67,7 +67,7 @@ class Generator:
                 next_bit_size = next_bit_size + 1
                 mod = math.log(next_bit_size, 2)
             valid_c_type = c_type.value.lower()
-            if valid_c_type == "uint":
+            if valid_c_type in ["int", "uint"]:
                 if (
                     valid_c_type + str(next_bit_size) + "_t"
                 ) in cls._POSIX_DEFINED_TYPES:
-- 
2.43.0


From 701b7e84b622486b05a2b0cd0c0782618a68b296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:25 +0000
Subject: [PATCH 03/32] fix: include imported modules by their header name in C
 and binary output

The generated headers included "<module>" instead of "<module>.h", so
a module with imports did not compile.
---
 asn1_parser/generators/binary/generator.py | 2 +-
 asn1_parser/generators/c/generator.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/asn1_parser/generators/binary/generator.py b/asn1_parser/generators/binary/generator.py
index 969e740..23b153c 100644
--- a/asn1_parser/generators/binary/generator.py
+++ b/asn1_parser/generators/binary/generator.py
@@ -107,7 +107,7 @@ class BinaryGenerator(Generator):
                 module_cdata.add_include(
                     str(
                         cgen.Include(
-                            cls.get_filename(module_imported_item),
+                            cls.get_filename(module_imported_item) + ".h",
                             system=False,
                         )
                     )
diff --git a/asn1_parser/generators/c/generator.py b/asn1_parser/generators/c/generator.py
index 74ed97d..7472726 100644
--- a/asn1_parser/generators/c/generator.py
+++ b/asn1_parser/generators/c/generator.py
@@ -62,7 +62,7 @@ class CGenerator(Generator):
                 module_cdata.add_include(
                     str(
                         cgen.Include(
-                            cls.get_filename(module_imported_item),
+                            cls.get_filename(module_imported_item) + ".h",
                             system=False,
                         )
                     )
-- 
2.43.0


From 99d6ed5f2a13b4107e84409e028a9d1f2ed6f175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:29 +0000
Subject: [PATCH 04/32] fix: do not mark COSMOS booleans without a value as ID
 items

A BOOLEAN member without WITH COMPONENTS value became APPEND_ID_ITEM with
the value 0, so COSMOS only identified packets in which it was false.
---
 asn1_parser/generators/cosmos/templates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1_parser/generators/cosmos/templates.py b/asn1_parser/generators/cosmos/templates.py
index 7164131..3463b45 100644
--- a/asn1_parser/generators/cosmos/templates.py
+++ b/asn1_parser/generators/cosmos/templates.py
@@ -62,7 +62,7 @@ def cosmos_telemetry(
             cos_type = "UINT"
             if specific_value == "True":
                 specific_value = "1"
-            else:
+            elif specific_value == "False":
                 specific_value = "0"
         elif cosmos_type == TypeEnum.A_DOUBLE:
             # change c_double to FLOAT
-- 
2.43.0


From cc9730f4d732f84ec60db8ace31b13b94d36bb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:29 +0000
Subject: [PATCH 05/32] fix: generate COSMOS packets whose APID has no fixed
 value

An application-process-identifier member without WITH COMPONENTS value
ended in 'ValueError: Unknown format code X'.
---
 asn1_parser/generators/cosmos/generator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/asn1_parser/generators/cosmos/generator.py b/asn1_parser/generators/cosmos/generator.py
index 9a25552..ec728dc 100644
--- a/asn1_parser/generators/cosmos/generator.py
+++ b/asn1_parser/generators/cosmos/generator.py
@@ -217,7 +217,10 @@ class COSMOSGenerator:
                 is_array = isinstance(seq_type, Array)
                 if is_array:
                     specific_value = str(seq_type.get_length() * bitsize)
-                elif seq_item.get_key() == ASN1_KEY_CCSDS_APID:
+                elif (
+                    seq_item.get_key() == ASN1_KEY_CCSDS_APID
+                    and specific_value != ""
+                ):
                     specific_value = f"0x{specific_value:02X}"
                 else:
                     specific_value = str(specific_value)
-- 
2.43.0


From d1f2e6ead8bf65030237be852616bca2979ca37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:50 +0000
Subject: [PATCH 06/32] fix: reject enumerations whose explicit positions only
 sum up to zero

Explicit positions such as a(-1), b(1) were taken for 'no positions
given' and silently renumbered.
---
 asn1_parser/asn1/processor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1_parser/asn1/processor.py b/asn1_parser/asn1/processor.py
index c3bdd7c..10fb18b 100644
--- a/asn1_parser/asn1/processor.py
+++ b/asn1_parser/asn1/processor.py
@@ -270,7 +270,7 @@ def check_comment(model: Asn1Comment) -> None:
 
 def check_enumerated(model: Enumerated) -> None:
     pos_sum = sum([e.get_pos() for e in model.get_enum()])
-    if pos_sum == 0:
+    if all(e.get_pos() == 0 for e in model.get_enum()):
         # write position into object, when no positions are given
         pos = 0
         for enum in model.get_enum():
-- 
2.43.0


From fc84f267928385c363e063de39ebd6f7f019b713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:04 +0000
Subject: [PATCH 07/32] fix: do not modify the ASN.1 model when generating
 COSMOS packets

The components of an outer WITH COMPONENTS were appended to the parsed
model, so a packet depended on the packets generated before it.
---
 asn1_parser/generators/cosmos/generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1_parser/generators/cosmos/generator.py b/asn1_parser/generators/cosmos/generator.py
index ec728dc..4eeaa30 100644
--- a/asn1_parser/generators/cosmos/generator.py
+++ b/asn1_parser/generators/cosmos/generator.py
@@ -131,7 +131,7 @@ class COSMOSGenerator:
                 with_components: WithComponents = seq_item.get_with_components()
                 components_list: List[ComponentsItem] = []
                 if with_components:
-                    components_list = with_components.get_components()
+                    components_list = with_components.get_components().copy()
                 specific_value: str = ""
                 # go through WITH COMPONENTS
                 if with_comp:
-- 
2.43.0


From 0ac557e7ab1f01b28cd97a7b8bba1527f41727f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:16 +0000
Subject: [PATCH 08/32] fix: reject duplicate module names in generate-cosmos

The other generators already do; COSMOS silently used the first module.
---
 asn1_parser/asn1/asn1_bundle_builder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/asn1_parser/asn1/asn1_bundle_builder.py b/asn1_parser/asn1/asn1_bundle_builder.py
index c1f6c8a..716b4c3 100644
--- a/asn1_parser/asn1/asn1_bundle_builder.py
+++ b/asn1_parser/asn1/asn1_bundle_builder.py
@@ -66,6 +66,7 @@ class ASN1BundleBuilder:
             *config.input_paths
         )
 
+        ASN1BundleBuilder._validate_unique_module_names(modules, config)
         bundle = ASN1BundleBuilder.build(modules)
         ASN1BundleValidator.validate_bundle(bundle)
 
@@ -166,6 +167,7 @@ class ASN1BundleBuilder:
             GenerateCFSCommandConfig,
             GenerateBinaryCommandConfig,
             GenerateCCommandConfig,
+            GenerateCosmosCommandConfig,
         ],
     ) -> None:
         error_message: str = ""
-- 
2.43.0


From b96684fcf60b322189049b7f02029bd97925cb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:43 +0000
Subject: [PATCH 09/32] fix: give a field with a single possible value one bit

INTEGER(0..0) ended in a math domain error and an enumeration with one
item was generated to a C bitfield of width zero, which does not compile.
---
 asn1_parser/asn1/grammar_elements/enumerated.py | 3 ++-
 asn1_parser/utils/size.py                       | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/asn1_parser/asn1/grammar_elements/enumerated.py b/asn1_parser/asn1/grammar_elements/enumerated.py
index 2490546..1c77ff8 100644
--- a/asn1_parser/asn1/grammar_elements/enumerated.py
+++ b/asn1_parser/asn1/grammar_elements/enumerated.py
@@ -37,4 +37,5 @@ class Enumerated(Definitions):
         """
         values = [e.get_pos() for e in self.get_enum()]
         last_value = max(values)
-        return last_value.bit_length()  # int.bit_length() is a Python builtin
+        # int.bit_length() is a Python builtin. A field has at least one bit.
+        return max(1, last_value.bit_length())
diff --git a/asn1_parser/utils/size.py b/asn1_parser/utils/size.py
index e1ad03c..28e824d 100644
--- a/asn1_parser/utils/size.py
+++ b/asn1_parser/utils/size.py
@@ -40,7 +40,8 @@ def get_bit_size(
         bitsize = 1
     elif c_type is TypeEnum.A_UINT:
         assert isinstance(end, int), f"Expected int, got {type(end)} ({end})"
-        bitsize = end.bit_length()  # int.bit_length() is a Python builtin
+        # int.bit_length() is a Python builtin. A field has at least one bit.
+        bitsize = max(1, end.bit_length())
     elif c_type is TypeEnum.A_INT:
         assert isinstance(
             begin, int
-- 
2.43.0


From 185b2e53740852fc8a577388822871560c01fe40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:09 +0000
Subject: [PATCH 10/32] fix: reject INTEGER ranges which need more than 64 bits

An unsigned range beyond 64 bits was generated to C that does not compile
and a signed one was only noticed after part of the output was written.
---
 asn1_parser/asn1/processor.py | 4 +++-
 asn1_parser/utils/size.py     | 2 ++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/asn1_parser/asn1/processor.py b/asn1_parser/asn1/processor.py
index 10fb18b..763235f 100644
--- a/asn1_parser/asn1/processor.py
+++ b/asn1_parser/asn1/processor.py
@@ -23,6 +23,7 @@ from asn1_parser.utils.size import (
     FLOAT_MAX,
     FLOAT_MIN,
     TypeEnum,
+    get_bit_size,
 )
 
 #####
@@ -194,8 +195,9 @@ def asn1_type(model: Asn1Type) -> None:
         if begin >= 0:
             c_type = TypeEnum.A_UINT
         else:
-            # TODO check bounds
             c_type = TypeEnum.A_INT
+        # raises a ValueError if the range does not fit into any stdint type
+        get_bit_size(c_type, begin, end)
     elif type_name == "REAL" and begin is not None and end is not None:
         if begin >= FLOAT_MIN and end <= FLOAT_MAX:
             c_type = TypeEnum.A_FLOAT
diff --git a/asn1_parser/utils/size.py b/asn1_parser/utils/size.py
index 28e824d..1741a80 100644
--- a/asn1_parser/utils/size.py
+++ b/asn1_parser/utils/size.py
@@ -42,6 +42,8 @@ def get_bit_size(
         assert isinstance(end, int), f"Expected int, got {type(end)} ({end})"
         # int.bit_length() is a Python builtin. A field has at least one bit.
         bitsize = max(1, end.bit_length())
+        if bitsize > 64:
+            raise ValueError(f"{end} is out of stdint definition.")
     elif c_type is TypeEnum.A_INT:
         assert isinstance(
             begin, int
-- 
2.43.0


From eae0f60591466319f2ca67a445835e58547972e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:32 +0000
Subject: [PATCH 11/32] fix: reject simple definitions which use an undefined
 type

Only the members of SEQUENCE and CHOICE were checked.
---
 asn1_parser/asn1/processor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/asn1_parser/asn1/processor.py b/asn1_parser/asn1/processor.py
index 763235f..19856b2 100644
--- a/asn1_parser/asn1/processor.py
+++ b/asn1_parser/asn1/processor.py
@@ -66,9 +66,11 @@ def model_processor_check_used_types_defined(
 
     defined_types: List[str] = _check_types_once_defined(model)
     for definition in model.get_definitions():
-        key_type_pair_list: List[KeyTypePair] = []
+        key_type_pair_list: List[Any] = []
         if isinstance(definition, (Sequence, Choice)):
             key_type_pair_list = definition.get_children()
+        elif isinstance(definition, SimpleDefinition):
+            key_type_pair_list = [definition]
         else:
             pass
 
-- 
2.43.0


From 61d2489e093ec2cff9fac35316fc51f76e679065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:10 +0000
Subject: [PATCH 12/32] fix: generate simple definitions of BOOLEAN as one bit
 in C

They were generated as 'bool' without including stdbool.h, which neither
compiles nor has the size of the COSMOS item.
---
 asn1_parser/generators/generator.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/asn1_parser/generators/generator.py b/asn1_parser/generators/generator.py
index 8d133f5..b618041 100644
--- a/asn1_parser/generators/generator.py
+++ b/asn1_parser/generators/generator.py
@@ -42,7 +42,12 @@ class Generator:
         is_stdbool_needed = False
         is_stdint_needed = False
 
-        if valid_c_type in ["INTEGER", "REAL"] or isinstance(
+        if valid_c_type == "BOOLEAN":
+            # Note: booleans are encoded as uint8_t bitfilds of 1 bit
+            bit_length = " : 1"
+            valid_c_type = "uint8_t"
+            is_stdint_needed = True
+        elif valid_c_type in ["INTEGER", "REAL"] or isinstance(
             definition, SimpleDefinition
         ):
             c_type: Optional[TypeEnum] = definition.get_asn_type().get_c_type()
@@ -77,11 +82,6 @@ class Generator:
                     # TODO specify correctly (smallest uint)
                     # if not matching get something big
                     valid_c_type = "unsigned long long"
-        elif valid_c_type == "BOOLEAN":
-            # Note: booleans are encoded as uint8_t bitfilds of 1 bit
-            bit_length = " : 1"
-            valid_c_type = "uint8_t"
-            is_stdint_needed = True
         elif isinstance(definition.get_asn_type().get_type(), Enumerated):
             # "Pack" enums using bitfields (needs __attribute__((packed)) too)
             bit_length = " : " + str(definition.get_size_bits())
-- 
2.43.0


From 55500d693c34448e4a4d401449bcba1d49188422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:10 +0000
Subject: [PATCH 13/32] fix: generate the states of simple definitions of
 BOOLEAN in COSMOS

---
 asn1_parser/generators/cosmos/generator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/asn1_parser/generators/cosmos/generator.py b/asn1_parser/generators/cosmos/generator.py
index 4eeaa30..b8b7015 100644
--- a/asn1_parser/generators/cosmos/generator.py
+++ b/asn1_parser/generators/cosmos/generator.py
@@ -186,6 +186,8 @@ class COSMOSGenerator:
                         c_type = inner_definition.get_asn_type().get_c_type()
                         begin = inner_definition.get_asn_type().get_begin()
                         end = inner_definition.get_asn_type().get_end()
+                        if c_type == TypeEnum.A_BOOL:
+                            state_list = ["False", "True"]
                     elif isinstance(inner_definition, Enumerated):
                         # if it is an enumerated do not start a recursion but
                         # resolve the data
-- 
2.43.0


From 9080eacfc1af772e0e3a1bb1d29d6f25e80abe2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:09 +0000
Subject: [PATCH 14/32] fix: generate members whose type is a simple definition
 of a string

The documentation lists strings among the simple definitions, but the C
and COSMOS generators failed with an AssertionError when one was used.
---
 asn1_parser/generators/cosmos/generator.py |  3 +++
 asn1_parser/generators/generator.py        | 28 +++++++++-------------
 2 files changed, 14 insertions(+), 17 deletions(-)

diff --git a/asn1_parser/generators/cosmos/generator.py b/asn1_parser/generators/cosmos/generator.py
index b8b7015..36a859a 100644
--- a/asn1_parser/generators/cosmos/generator.py
+++ b/asn1_parser/generators/cosmos/generator.py
@@ -186,6 +186,9 @@ class COSMOSGenerator:
                         c_type = inner_definition.get_asn_type().get_c_type()
                         begin = inner_definition.get_asn_type().get_begin()
                         end = inner_definition.get_asn_type().get_end()
+                        inner_type = inner_definition.get_asn_type().get_type()
+                        if isinstance(inner_type, Asn1String):
+                            end = inner_type.get_length()
                         if c_type == TypeEnum.A_BOOL:
                             state_list = ["False", "True"]
                     elif isinstance(inner_definition, Enumerated):
diff --git a/asn1_parser/generators/generator.py b/asn1_parser/generators/generator.py
index b618041..5d3a492 100644
--- a/asn1_parser/generators/generator.py
+++ b/asn1_parser/generators/generator.py
@@ -47,8 +47,8 @@ class Generator:
             bit_length = " : 1"
             valid_c_type = "uint8_t"
             is_stdint_needed = True
-        elif valid_c_type in ["INTEGER", "REAL"] or isinstance(
-            definition, SimpleDefinition
+        elif valid_c_type in ["INTEGER", "REAL"] or (
+            isinstance(definition, SimpleDefinition) and valid_c_type != "char"
         ):
             c_type: Optional[TypeEnum] = definition.get_asn_type().get_c_type()
             if c_type is None:
@@ -162,25 +162,19 @@ class Generator:
                 seq_key += bit_length
 
             seq_item_type = seq_item.get_asn_type().get_type()
+            c_declaration = cgen.Value(struct_c_type, seq_key)
             if isinstance(seq_item_type, (Array, Asn1String)):
                 # array or string (char array)
-
-                sequence_list.append(
-                    cgen.ArrayOf(
-                        cgen.Value(
-                            struct_c_type,
-                            seq_key,
-                        ),
-                        seq_item_type.get_length(),
-                    )
+                c_declaration = cgen.ArrayOf(
+                    c_declaration, seq_item_type.get_length()
                 )
-            else:
-                sequence_list.append(
-                    cgen.Value(
-                        struct_c_type,
-                        seq_key,
+            for string_definition in simple_definition[:1]:
+                string_type = string_definition.get_asn_type().get_type()
+                if isinstance(string_type, Asn1String):
+                    c_declaration = cgen.ArrayOf(
+                        c_declaration, string_type.get_length()
                     )
-                )
+            sequence_list.append(c_declaration)
             definition_type_name_c: str = CPrinter.asn1_to_c_style_naming(
                 definition.get_type_name()
             )
-- 
2.43.0


From 30d51f94b5562f1a75979f32d992a743a0064794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:42 +0000
Subject: [PATCH 15/32] fix: reject POSIX integer names which are defined as
 REAL and vice versa

Uint8-t ::= REAL(0.0 .. 255.0) was accepted and generated to an uint8_t in
C but to a 32-bit FLOAT in COSMOS.
---
 asn1_parser/asn1/processor.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/asn1_parser/asn1/processor.py b/asn1_parser/asn1/processor.py
index 19856b2..5290850 100644
--- a/asn1_parser/asn1/processor.py
+++ b/asn1_parser/asn1/processor.py
@@ -229,7 +229,12 @@ def check_posix(model: SimpleDefinition) -> None:
     if posix:
         begin = model.get_asn_type().get_begin()
         end = model.get_asn_type().get_end()
-        if posix.get("begin") != begin or posix.get("end") != end:
+        base = "REAL" if name in ["Float", "Double"] else "INTEGER"
+        if (
+            model.get_asn_type().get_type_name() != base
+            or posix.get("begin") != begin
+            or posix.get("end") != end
+        ):
             # pylint: disable=import-outside-toplevel
 
             raise ASN1ConsistencyError(
-- 
2.43.0


From e95cf837c45f94c0e00033f7c578d13b24d657b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:11 +0000
Subject: [PATCH 16/32] fix: reject comments which change the meaning of the
 generated C code

A comment ending with a backslash removed the next member from the C
struct, and '*/' ended the C comment early.
---
 asn1_parser/asn1/processor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asn1_parser/asn1/processor.py b/asn1_parser/asn1/processor.py
index 5290850..9e2a3f2 100644
--- a/asn1_parser/asn1/processor.py
+++ b/asn1_parser/asn1/processor.py
@@ -264,7 +264,8 @@ def null_exception_catch(model: Union[KeyTypePair, SimpleDefinition]) -> None:
 
 def check_comment(model: Asn1Comment) -> None:
     assert isinstance(model, Asn1Comment), f"{model}"
-    not_allowed = ["[", "]", "--"]
+    # a backslash or the end of a C comment would change the generated C code
+    not_allowed = ["[", "]", "--", "\\", "*/"]
     for sign in not_allowed:
         if not model.get_comment():
             return
-- 
2.43.0


From c5945f4720c4c7385dd83b8233f00e480faf7c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:23 +0000
Subject: [PATCH 17/32] fix: escape double quotes in the descriptions of COSMOS
 packets and items

---
 asn1_parser/generators/cosmos/templates.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asn1_parser/generators/cosmos/templates.py b/asn1_parser/generators/cosmos/templates.py
index 3463b45..8650ac0 100644
--- a/asn1_parser/generators/cosmos/templates.py
+++ b/asn1_parser/generators/cosmos/templates.py
@@ -38,6 +38,7 @@ def cosmos_telemetry(
     pkt_name: str,
     telemetry: List[TelemetryEntry],
 ) -> str:
+    target_comment = target_comment.replace('"', '\\"')
     telemetry_pkt: str = (
         f'TELEMETRY {target_name} {pkt_name} BIG_ENDIAN "{target_comment}"\n'
     )
@@ -48,7 +49,7 @@ def cosmos_telemetry(
         bitsize = str(telemetry_packet.bitsize)
         cosmos_type = telemetry_packet.cosmos_type
         specific_value = telemetry_packet.specific_value
-        comment = telemetry_packet.comment
+        comment = telemetry_packet.comment.replace('"', '\\"')
         unit = telemetry_packet.unit
         states = telemetry_packet.state_list
         is_array = telemetry_packet.is_array
-- 
2.43.0


From f00fcb8c4ae8b971671ade178dce42f0c687cbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:25 +0000
Subject: [PATCH 18/32] fix: write binary values in the order of the C struct

The values were written in the order of the WITH COMPONENTS and missing
ones were left out, so the binary did not match the generated struct.
---
 asn1_parser/generators/binary/generator.py | 50 ++++++++++++++++------
 1 file changed, 36 insertions(+), 14 deletions(-)

diff --git a/asn1_parser/generators/binary/generator.py b/asn1_parser/generators/binary/generator.py
index 23b153c..9bc4671 100644
--- a/asn1_parser/generators/binary/generator.py
+++ b/asn1_parser/generators/binary/generator.py
@@ -187,18 +187,17 @@ class BinaryGenerator(Generator):
                     str, SequenceSpecificationContainer
                 ] = {}
                 for sequence in definition.get_children():
-                    if sequence.get_with_components() is None:
-                        seq_specifications[
-                            sequence.get_key()
-                        ] = SequenceSpecificationContainer(
-                            # None if a WITH COMPONENTS otherwise TypeEnum
-                            c_type=sequence.get_asn_type().get_c_type(),
-                            # needed for correct (u)int assignement
-                            bitsize=sequence.get_size_bits(),
-                            # ASN.1 type, either simple definition or own
-                            # definition (Sequence, Choice, ...)
-                            seq_type=sequence.get_asn_type().get_type_name(),
-                        )
+                    seq_specifications[
+                        sequence.get_key()
+                    ] = SequenceSpecificationContainer(
+                        # None if a WITH COMPONENTS otherwise TypeEnum
+                        c_type=sequence.get_asn_type().get_c_type(),
+                        # needed for correct (u)int assignement
+                        bitsize=sequence.get_size_bits(),
+                        # ASN.1 type, either simple definition or own
+                        # definition (Sequence, Choice, ...)
+                        seq_type=sequence.get_asn_type().get_type_name(),
+                    )
                 definitions[definition.get_type_name()] = seq_specifications
 
         bin_data_list.extend(cls._values_to_bytes_list(seq_item, definitions))
@@ -225,7 +224,9 @@ class BinaryGenerator(Generator):
             )
         asn_type_name: str = asn_type.get_type_name()
 
-        for component in with_component.get_components():
+        for component in cls._get_components_as_declared(
+            with_component, definitions[asn_type_name]
+        ):
             bin_data = cls._component_to_bytes(
                 component,
                 asn_type_name,
@@ -235,6 +236,25 @@ class BinaryGenerator(Generator):
 
         return bin_data_list
 
+    @classmethod
+    def _get_components_as_declared(
+        cls,
+        with_component: WithComponents,
+        declared: Dict[str, SequenceSpecificationContainer],
+    ) -> List[ComponentsItem]:
+        # The binary must match the C struct: every member in the order of the
+        # declaration, whatever the order of the WITH COMPONENTS.
+        components: Dict[str, ComponentsItem] = {
+            component.get_key(): component
+            for component in with_component.get_components()
+        }
+        if components.keys() != declared.keys():
+            raise NotImplementedError(
+                "WITH COMPONENTS must give a value to all of "
+                f"{list(declared)}, but only has {list(components)}."
+            )
+        return [components[key] for key in declared]
+
     @classmethod
     def _component_to_bytes(  # pylint: disable=too-many-arguments
         cls,
@@ -255,7 +275,9 @@ class BinaryGenerator(Generator):
 
         if isinstance(value, WithComponents):
             inner_asn_type_name: str = key.get_seq_type()
-            for inner_component in value.get_components():
+            for inner_component in cls._get_components_as_declared(
+                value, definitions[inner_asn_type_name]
+            ):
                 bin_data = cls._component_to_bytes(
                     inner_component,
                     inner_asn_type_name,
-- 
2.43.0


From eb082afdec946ffe8f121e702d5fada9c43bb6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:37 +0000
Subject: [PATCH 19/32] fix: keep the binary values of all members of a
 sequence

Only the values of the last member with a WITH COMPONENTS were written.
---
 asn1_parser/c_data.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/asn1_parser/c_data.py b/asn1_parser/c_data.py
index be0cfb7..82329d1 100644
--- a/asn1_parser/c_data.py
+++ b/asn1_parser/c_data.py
@@ -83,8 +83,9 @@ class CData:
         self.set_init_include(other_cdata.get_init_include())
         self.set_stdbool_if_needed(other_cdata.is_stdbool_needed())
         self.set_stdint_if_needed(other_cdata.is_stdint_needed())
-        # TODO prevent overriding existing keys
-        self._binary_init.update(other_cdata.get_binary_init())
+        # several members of a sequence can have a WITH COMPONENTS
+        for key, binary_init_list in other_cdata.get_binary_init().items():
+            self._binary_init.setdefault(key, []).extend(binary_init_list)
 
     def add_data(self, data_string: str) -> None:
         self._data.append(data_string)
-- 
2.43.0


From 8208491c1bca0a00b7447e82be84df54eecc23d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:33 +0000
Subject: [PATCH 20/32] fix: initialize one C variable per sequence

A sequence with several WITH COMPONENTS members was generated to several
definitions of the same variable, which does not compile.
---
 asn1_parser/generators/c/generator.py | 50 ++++++++++++++++-----------
 1 file changed, 30 insertions(+), 20 deletions(-)

diff --git a/asn1_parser/generators/c/generator.py b/asn1_parser/generators/c/generator.py
index 7472726..465528b 100644
--- a/asn1_parser/generators/c/generator.py
+++ b/asn1_parser/generators/c/generator.py
@@ -117,6 +117,33 @@ class CGenerator(Generator):
                 header_type=HeaderType.STORED_DATA,
             )
 
+    # override
+    @classmethod
+    def _convert_sequence_to_c(
+        cls,
+        simple_definition_list: List[SimpleDefinition],
+        definition: Sequence,
+        module: Asn1Module,
+    ) -> CData:
+        cdata = super()._convert_sequence_to_c(
+            simple_definition_list, definition, module
+        )
+
+        # one variable per sequence, initialized with all of its members
+        # which have a WITH COMPONENTS
+        member_inits = cdata.get_init_list()
+        if member_inits:
+            seq_name = CPrinter.asn1_to_c_style_naming(
+                definition.get_type_name()
+            )
+            variable = seq_name + " " + lowerize(seq_name)
+            member_inits[:] = [
+                variable + " = {\n" + "".join(member_inits) + "};\n"
+            ]
+            cdata.add_init_predef(variable + ";")
+
+        return cdata
+
     # override
     @classmethod
     def _with_components_handling(
@@ -130,36 +157,20 @@ class CGenerator(Generator):
 
         cdata: CData = CData.create_empty()
 
-        cdata.add_init(
-            cls._process_start_with_component(definition_type_name_c, seq_item)
-        )
-        cdata.add_init_predef(
-            definition_type_name_c
-            + " "
-            + lowerize(definition_type_name_c)
-            + ";"
-        )
+        cdata.add_init(cls._process_start_with_component(seq_item))
         filename = cls.get_filename(module)
         cdata.set_init_include(str(cgen.Include(filename + ".h", system=False)))
 
         return cdata
 
     @classmethod
-    def _process_start_with_component(
-        cls,
-        seq_name: str,
-        seq_item: KeyTypePair,
-    ) -> str:
+    def _process_start_with_component(cls, seq_item: KeyTypePair) -> str:
         seq_key: str = seq_item.get_key()
         with_components: WithComponents = seq_item.get_with_components()
 
         shift_level: int = 1
         return (
-            seq_name
-            + " "
-            + lowerize(seq_name)
-            + " = {\n"
-            + (shift_level * cls._C_SPACES)
+            (shift_level * cls._C_SPACES)
             + "."
             + CPrinter.asn1_to_c_style_naming(seq_key)
             + " = {\n"
@@ -168,7 +179,6 @@ class CGenerator(Generator):
             )
             + (shift_level * cls._C_SPACES)
             + "},\n"
-            + "};\n"
         )
 
     @classmethod
-- 
2.43.0


From 3b16ec6b749a295e2f62f9d73ecd1fdec6e3a048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:46 +0000
Subject: [PATCH 21/32] fix: include the header in the C file whatever the
 order of the definitions

The include was lost when the last definition had no WITH COMPONENTS.
---
 asn1_parser/c_data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asn1_parser/c_data.py b/asn1_parser/c_data.py
index 82329d1..876a604 100644
--- a/asn1_parser/c_data.py
+++ b/asn1_parser/c_data.py
@@ -80,7 +80,8 @@ class CData:
         self._init_list.extend(other_cdata.get_init_list())
         self._init_list_predef.extend(other_cdata.get_init_list_predef())
         # TODO one init_include per file?
-        self.set_init_include(other_cdata.get_init_include())
+        if other_cdata.get_init_include():
+            self.set_init_include(other_cdata.get_init_include())
         self.set_stdbool_if_needed(other_cdata.is_stdbool_needed())
         self.set_stdint_if_needed(other_cdata.is_stdint_needed())
         # several members of a sequence can have a WITH COMPONENTS
-- 
2.43.0


From 0ec649bf10a37f75226991ac4643feabc4423df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:15 +0000
Subject: [PATCH 22/32] fix: reject members and enumeration items which are
 defined multiple times

They were generated to C structs and enums which do not compile.
---
 .../asn1/validation/asn1_bundle_validator.py  | 21 ++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/asn1_parser/asn1/validation/asn1_bundle_validator.py b/asn1_parser/asn1/validation/asn1_bundle_validator.py
index 0b4a60c..85ad67c 100644
--- a/asn1_parser/asn1/validation/asn1_bundle_validator.py
+++ b/asn1_parser/asn1/validation/asn1_bundle_validator.py
@@ -1,9 +1,10 @@
-from typing import List, Union, Dict
+from typing import Any, List, Union, Dict
 
 from asn1_parser.asn1.asn1_bundle import ASN1Bundle
 from asn1_parser.asn1.grammar_elements.asn1_module import Asn1Module
 from asn1_parser.asn1.grammar_elements.choice import Choice
 from asn1_parser.asn1.grammar_elements.definitions import Definitions
+from asn1_parser.asn1.grammar_elements.enumerated import Enumerated
 from asn1_parser.asn1.grammar_elements.sequence import Sequence
 from asn1_parser.asn1.processor import (
     model_processor_check_used_components_defined,
@@ -37,8 +38,26 @@ class ASN1BundleValidator:
     def validate_bundle(bundle: ASN1Bundle) -> None:
         ASN1BundleValidator._check_imported_types_and_check_components(bundle)
         ASN1BundleValidator._check_bundle_for_duplicate_definitions(bundle)
+        ASN1BundleValidator._check_bundle_for_duplicate_keys(bundle)
         ASN1BundleValidator._check_circular_dependencies(bundle)
 
+    @staticmethod
+    def _check_bundle_for_duplicate_keys(bundle: ASN1Bundle) -> None:
+        for module in bundle.get_modules():
+            for definition in module.get_definitions():
+                items: List[Any] = []
+                if isinstance(definition, (Sequence, Choice)):
+                    items = definition.get_children()
+                elif isinstance(definition, Enumerated):
+                    items = definition.get_enum()
+                keys: List[str] = [item.get_key() for item in items]
+                for key in keys:
+                    if keys.count(key) > 1:
+                        raise ASN1ConsistencyError(
+                            f"'{key}' is defined multiple times in "
+                            f"'{definition.get_type_name()}'"
+                        )
+
     @staticmethod
     def _check_circular_dependencies(bundle: ASN1Bundle) -> None:
         imports: Dict[str, List[str]] = {}
-- 
2.43.0


From 7b036f37d7a0397079f5871187ba04a18177db50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:27 +0000
Subject: [PATCH 23/32] fix: reject components which are given multiple times

The generators disagreed about the value: C used the last one, COSMOS
none and cFS defined both.
---
 asn1_parser/asn1/processor.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/asn1_parser/asn1/processor.py b/asn1_parser/asn1/processor.py
index 9e2a3f2..0d84a20 100644
--- a/asn1_parser/asn1/processor.py
+++ b/asn1_parser/asn1/processor.py
@@ -120,6 +120,12 @@ def _check_with_component(
         sequence: List[Sequence] = [
             s for s in all_sequences if s.get_type_name() == type_name
         ]
+        component_keys = [c.get_key() for c in with_component.get_components()]
+        for key in component_keys:
+            if component_keys.count(key) > 1:
+                raise ASN1ConsistencyError(
+                    f"'{key}' in '{def_type_name}' has multiple values"
+                )
         if len(sequence) == 1:
             seq: List[KeyTypePair] = sequence[0].get_children()
             allowed_keys: List[str] = [s.get_key() for s in seq]
-- 
2.43.0


From fbd8ed43c45434f34e802419ce966e5f4b95f055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:18 +0000
Subject: [PATCH 24/32] fix: reject types which are recursive through simple
 definitions

---
 asn1_parser/asn1/validation/asn1_bundle_validator.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/asn1_parser/asn1/validation/asn1_bundle_validator.py b/asn1_parser/asn1/validation/asn1_bundle_validator.py
index 85ad67c..eae17c8 100644
--- a/asn1_parser/asn1/validation/asn1_bundle_validator.py
+++ b/asn1_parser/asn1/validation/asn1_bundle_validator.py
@@ -6,6 +6,7 @@ from asn1_parser.asn1.grammar_elements.choice import Choice
 from asn1_parser.asn1.grammar_elements.definitions import Definitions
 from asn1_parser.asn1.grammar_elements.enumerated import Enumerated
 from asn1_parser.asn1.grammar_elements.sequence import Sequence
+from asn1_parser.asn1.grammar_elements.simple_definition import SimpleDefinition
 from asn1_parser.asn1.processor import (
     model_processor_check_used_components_defined,
 )
@@ -72,6 +73,10 @@ class ASN1BundleValidator:
                         item.get_asn_type().get_type_name()
                         for item in definition.get_children()
                     ]
+                elif isinstance(definition, SimpleDefinition):
+                    types[definition.get_type_name()] = [
+                        definition.get_asn_type().get_type_name()
+                    ]
 
         for what, graph in (("imports", imports), ("types", types)):
             # Remove everything which only depends on things removed before,
-- 
2.43.0


From 53c73abfe52f47ba38e98da994b2247130787f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:50 +0000
Subject: [PATCH 25/32] fix: large integer values of REAL fields in the
 generated C source

An integer beyond 64 bits given to a REAL component became an integer
constant which C compilers truncate. It is written as floating-point constant.
---
 asn1_parser/generators/c/generator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/asn1_parser/generators/c/generator.py b/asn1_parser/generators/c/generator.py
index 465528b..455da0b 100644
--- a/asn1_parser/generators/c/generator.py
+++ b/asn1_parser/generators/c/generator.py
@@ -210,6 +210,10 @@ class CGenerator(Generator):
             else:
                 if isinstance(value, bool):
                     value = 1 if value else 0
+                elif not -(2**63) <= value < 2**64:
+                    # only a REAL can have such a value, which would be too
+                    # large for an integer constant
+                    value = float(value)
                 init_str += (
                     (shift_level * cls._C_SPACES)
                     + "."
-- 
2.43.0


From 2711963cc315adf0c1c64ad78140493b67b0c90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:16 +0000
Subject: [PATCH 26/32] fix: parse nested values in linear instead of
 exponential time

---
 asn1_parser/asn1/parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/asn1_parser/asn1/parser.py b/asn1_parser/asn1/parser.py
index 040d736..0e83f40 100644
--- a/asn1_parser/asn1/parser.py
+++ b/asn1_parser/asn1/parser.py
@@ -94,7 +94,10 @@ class Asn1Parser:
         cls, input_text: str, is_multimodule: bool = False
     ) -> Asn1Module:
         cls._logger.debug("parsing ASN.1 string")
-        meta_model = metamodel_from_str(GRAMMAR, classes=cls.used_classes)
+        # memoization: the time to parse is exponential in the nesting otherwise
+        meta_model = metamodel_from_str(
+            GRAMMAR, classes=cls.used_classes, memoization=True
+        )
         meta_model.register_obj_processors(cls._obj_processor)
         meta_model.register_model_processor(
             model_processor_check_used_types_defined
-- 
2.43.0


From bc30557fac9409ff46bbb2af510bd1fc6221923a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:57 +0000
Subject: [PATCH 27/32] fix: look up COSMOS types in each imported module only
 once

---
 asn1_parser/generators/cosmos/generator.py | 28 ++++++++++------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/asn1_parser/generators/cosmos/generator.py b/asn1_parser/generators/cosmos/generator.py
index 36a859a..fb45027 100644
--- a/asn1_parser/generators/cosmos/generator.py
+++ b/asn1_parser/generators/cosmos/generator.py
@@ -257,26 +257,22 @@ class COSMOSGenerator:
     def _get_definitions_recurs(
         cls, type_name: str, asn1_model: Optional[Asn1Module]
     ) -> List[Definitions]:
-        # search for the definition in current module
-
-        module_definitions: List[Definitions] = []
-        if asn1_model is not None:
-            module_definitions = asn1_model.get_definitions()
-
-        # search for the definition in imported modules
-        imported_definitions: List[Definitions] = []
+        # search for the definition in the current module and in the modules
+        # which it imports, directly or indirectly, each of them once
+        modules: List[Asn1Module] = []
         if asn1_model is not None:
-            imported_definitions = flatten(
-                [
-                    cls._get_definitions_recurs(type_name, module)
-                    for module in asn1_model.get_imported_modules()
-                ]
-            )
+            modules.append(asn1_model)
+        for module in modules:
+            for imported_module in module.get_imported_modules():
+                if imported_module not in modules:
+                    modules.append(imported_module)
+
+        all_def: List[Definitions] = flatten(
+            [module.get_definitions() for module in modules]
+        )
 
         # filter by name
 
-        all_def = module_definitions + imported_definitions
-
         matching_def = [d for d in all_def if d.get_type_name() == type_name]
 
         # remove duplicated objects
-- 
2.43.0


From 304401387daf08bb2d1b31d59b1b7406d9de82bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:03 +0000
Subject: [PATCH 28/32] fix: write binary output only after all modules could
 be converted

---
 asn1_parser/generators/binary/generator.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/asn1_parser/generators/binary/generator.py b/asn1_parser/generators/binary/generator.py
index 9bc4671..b0c66f9 100644
--- a/asn1_parser/generators/binary/generator.py
+++ b/asn1_parser/generators/binary/generator.py
@@ -82,6 +82,9 @@ class BinaryGenerator(Generator):
 
         module_list_ordered: List[Asn1Module] = bundle.get_modules_ordered()
 
+        # Files are only written after all modules could be converted.
+        cdata_by_filename: Dict[str, CData] = {}
+
         for module in module_list_ordered:
             module_cdata = CData.create_empty()
 
@@ -155,7 +158,9 @@ class BinaryGenerator(Generator):
             if file_documentation:
                 module_cdata.set_header_comment(file_documentation)
 
-            filename = cls.get_filename(module)
+            cdata_by_filename[cls.get_filename(module)] = module_cdata
+
+        for filename, module_cdata in cdata_by_filename.items():
             CPrinter.print_to_file(
                 cdata=module_cdata,
                 filename=filename,
-- 
2.43.0


From 3ca743c3acb589f580624a2d4af41ed70e53eb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:03 +0000
Subject: [PATCH 29/32] fix: accept only ASCII digits in names and units

---
 asn1_parser/asn1/grammar.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/asn1_parser/asn1/grammar.py b/asn1_parser/asn1/grammar.py
index 6079e7b..5fe999a 100644
--- a/asn1_parser/asn1/grammar.py
+++ b/asn1_parser/asn1/grammar.py
@@ -19,17 +19,17 @@ Asn1Comment[noskipws]:
   (' ')*
   is_little_endian?='ENDIANNESS(LITTLE)'
   (' ')*
-  ('[' unit=/[%A-Za-z\\d\\/\\^]+/ ']')?
+  ('[' unit=/[%A-Za-z0-9\\/\\^]+/ ']')?
   (' ')*
   (comment=/[A-Za-z0-9\\*\\(\\)\\.\\/%:, -_]+$/)?
 ;
 
 NameLower:
-  /[a-z][a-z\\d]*(-[a-z\\d]+)*/
+  /[a-z][a-z0-9]*(-[a-z0-9]+)*/
 ;
 
 NameCapital:
-  /[A-Z][a-z\\d]*(-[a-z\\d]+)*/
+  /[A-Z][a-z0-9]*(-[a-z0-9]+)*/
 ;
 
 Definitions:
-- 
2.43.0


From 0ea1e6c5d957f1452433a460ae956da7c79aba63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:02 +0000
Subject: [PATCH 30/32] fix: refuse negative sizes of arrays and strings

---
 asn1_parser/asn1/grammar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/asn1_parser/asn1/grammar.py b/asn1_parser/asn1/grammar.py
index 5fe999a..534270c 100644
--- a/asn1_parser/asn1/grammar.py
+++ b/asn1_parser/asn1/grammar.py
@@ -131,12 +131,12 @@ SimpleDefinition:
 ;
 
 Array:
-  'SEQUENCE (SIZE ('length=INT')) OF' asn_type=Asn1Type
+  'SEQUENCE (SIZE ('!'-' length=INT')) OF' asn_type=Asn1Type
 ;
 // TODO check whether SEQUENCE OF SEQUENCE OF ... is allowed in ASN.1
 
 Asn1String:
   (type_name='IA5String' | type_name='NumericString')
-  ' (SIZE ('length=INT'))'
+  ' (SIZE ('!'-' length=INT'))'
 ;
 """
-- 
2.43.0


From d88752d9efbb279d83f99b35f66241dac8c5ea7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:15 +0000
Subject: [PATCH 31/32] fix: refuse enumerations with several explicit zeros

a(0), b(0) was taken for an enumeration without numbers and renumbered.
---
 asn1_parser/asn1/grammar.py                         |  4 ++--
 .../asn1/grammar_elements/enumerated_item.py        | 13 +++++++++++--
 asn1_parser/asn1/processor.py                       |  3 ++-
 3 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/asn1_parser/asn1/grammar.py b/asn1_parser/asn1/grammar.py
index 534270c..b30e5af 100644
--- a/asn1_parser/asn1/grammar.py
+++ b/asn1_parser/asn1/grammar.py
@@ -44,11 +44,11 @@ Enumerated:
 ;
 
 EnumeratedItemNotLast:
-  key=NameLower ('('pos=INT')')? (',') (comment=Asn1Comment)?
+  key=NameLower (number_begin='(' pos=INT')')? (',') (comment=Asn1Comment)?
 ;
 
 EnumeratedItemLast:
-  key=NameLower ('('pos=INT')')? (comment=Asn1Comment)?
+  key=NameLower (number_begin='(' pos=INT')')? (comment=Asn1Comment)?
 ;
 
 Asn1Type[noskipws]:
diff --git a/asn1_parser/asn1/grammar_elements/enumerated_item.py b/asn1_parser/asn1/grammar_elements/enumerated_item.py
index 3b4fa8a..e31781e 100644
--- a/asn1_parser/asn1/grammar_elements/enumerated_item.py
+++ b/asn1_parser/asn1/grammar_elements/enumerated_item.py
@@ -6,11 +6,17 @@ from asn1_parser.log.logger import Logger
 class EnumeratedItem:
     _logger = Logger(__name__)
 
-    def __init__(
-        self, key: str, pos: int, comment: Asn1Comment, parent: Any
+    def __init__(  # pylint: disable=too-many-arguments
+        self,
+        key: str,
+        pos: int,
+        comment: Asn1Comment,
+        parent: Any,
+        number_begin: str = "",
     ) -> None:
         self._key = key
         self._pos = pos
+        self._number_begin = number_begin
         self._comment = comment
         EnumeratedItem._logger.debug(f"comment: {self._comment}")
         self._parent = parent
@@ -24,6 +30,9 @@ class EnumeratedItem:
     def get_pos(self) -> int:
         return self._pos
 
+    def is_item_numbered(self) -> bool:
+        return self._number_begin != ""
+
     def get_comment(self) -> Asn1Comment:
         return self._comment
 
diff --git a/asn1_parser/asn1/processor.py b/asn1_parser/asn1/processor.py
index 0d84a20..dba4828 100644
--- a/asn1_parser/asn1/processor.py
+++ b/asn1_parser/asn1/processor.py
@@ -286,7 +286,8 @@ def check_comment(model: Asn1Comment) -> None:
 
 def check_enumerated(model: Enumerated) -> None:
     pos_sum = sum([e.get_pos() for e in model.get_enum()])
-    if all(e.get_pos() == 0 for e in model.get_enum()):
+    numbered = [e for e in model.get_enum() if e.is_item_numbered()]
+    if not numbered or (pos_sum == 0 and len(numbered) == 1):
         # write position into object, when no positions are given
         pos = 0
         for enum in model.get_enum():
-- 
2.43.0


From 5f1473f9897e6078667b47b14590fac0aca95203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:23:40 +0000
Subject: [PATCH 32/32] fix: end the line after each item of a union

A comment of a choice item turned the following items and the closing
bracket into a comment.
---
 asn1_parser/generators/generator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/asn1_parser/generators/generator.py b/asn1_parser/generators/generator.py
index 5d3a492..03fa2a1 100644
--- a/asn1_parser/generators/generator.py
+++ b/asn1_parser/generators/generator.py
@@ -297,6 +297,7 @@ class Generator:
                 + CPrinter.asn1_to_c_style_naming(choice_item.get_key())
                 + ";"
                 + choice_comment
+                + "\n"
             )
         data_str += (
             "} "
-- 
2.43.0

