From b0058f038f0a1f5d7c487902088f28a757f55a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:34 +0000
Subject: [PATCH 01/30] fix: reject XML input that is not well-formed instead
 of returning a partial object

---
 ccsds_ndm/ndm_xml_io.py | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/ccsds_ndm/ndm_xml_io.py b/ccsds_ndm/ndm_xml_io.py
index dbec3dc..637a4b3 100644
--- a/ccsds_ndm/ndm_xml_io.py
+++ b/ccsds_ndm/ndm_xml_io.py
@@ -8,9 +8,9 @@ CCSDS Navigation Data Messages XML File I/O.
 
 """
 
-import xml.etree.ElementTree as ElementTree
 from enum import Enum
 from pathlib import Path
+from xml.parsers import expat
 
 from xsdata.formats.dataclass.parsers import XmlParser
 from xsdata.formats.dataclass.parsers.config import ParserConfig
@@ -237,23 +237,33 @@ def _identify_data_type(xml_source):
     xml_source : str
         NDM Data as XML string
 
+    Raises
+    ------
+    ValueError
+        XML data is not well-formed (e.g. truncated).
+
     Returns
     -------
     (data_type, ndm_combi) : (type, bool)
         Identified data type and whether it is a Combined NDM file
 
     """
+    # The document has to be well-formed: the parser silently recovers from errors and
+    # would return an incomplete object (e.g. for a file cut short). Namespace prefixes
+    # are not checked, as they may legitimately be missing from some files.
+    tags = []
+    checker = expat.ParserCreate()
+    checker.StartElementHandler = lambda tag, attributes: tags.append(tag)
+    try:
+        checker.Parse(xml_source.strip(), True)
+    except expat.ExpatError as err:
+        raise ValueError(f"XML data is not well-formed: {err}") from err
+
     ndm_combi = False
     try:
-        if isinstance(xml_source, Path):
-            # input is a file
-            root = ElementTree.parse(xml_source).getroot()
-        else:
-            # file is string or bytes
-            root = ElementTree.XML(xml_source)
         # find data type
-        data_type = _NdmDataType.find_element(root.tag).clazz
-    except (ElementTree.ParseError, AttributeError):
+        data_type = _NdmDataType.find_element(tags[0]).clazz
+    except AttributeError:
         # auto identify failed, try NDM (Combined Instantiation)
         ndm_combi = True
         data_type = Ndm
-- 
2.43.0


From aba4a68d3aa1538187c5f3fef2aa97609a7f676f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:54 +0000
Subject: [PATCH 02/30] fix: bind XML input to the identified NDM type, not to
 any class of that name in the process

---
 ccsds_ndm/ndm_xml_io.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ccsds_ndm/ndm_xml_io.py b/ccsds_ndm/ndm_xml_io.py
index 637a4b3..a64278c 100644
--- a/ccsds_ndm/ndm_xml_io.py
+++ b/ccsds_ndm/ndm_xml_io.py
@@ -124,7 +124,9 @@ class NdmXmlIo:
         # Identify data type of the string (Oem, Apm etc.)
         data_type, ndm_combi = _identify_data_type(xml_source)
 
-        ndm = self.parser.from_string(xml_source)
+        # bind to the identified type (automatic lookup through the names of all
+        # dataclasses loaded in the process may end up with an unrelated class)
+        ndm = self.parser.from_string(xml_source, data_type)
 
         # if the file is NDM, downcast the elements to their respective subclasses
         if isinstance(ndm, Ndm):
@@ -266,7 +268,7 @@ def _identify_data_type(xml_source):
     except AttributeError:
         # auto identify failed, try NDM (Combined Instantiation)
         ndm_combi = True
-        data_type = Ndm
+        data_type = Ndm if tags[0] == Ndm.Meta.name else None
 
     return data_type, ndm_combi
 
-- 
2.43.0


From e8d75381fbeea57094788f77d87e11293024b04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:56 +0000
Subject: [PATCH 03/30] fix: read and write files as UTF-8 whatever the locale
 (XML output declares UTF-8)

---
 ccsds_ndm/ndm_io.py     | 2 +-
 ccsds_ndm/ndm_kvn_io.py | 4 ++--
 ccsds_ndm/ndm_xml_io.py | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/ccsds_ndm/ndm_io.py b/ccsds_ndm/ndm_io.py
index 0bbcbde..88a73c9 100644
--- a/ccsds_ndm/ndm_io.py
+++ b/ccsds_ndm/ndm_io.py
@@ -45,7 +45,7 @@ class NdmIo:
             NDM Object tree from the file contents
         """
         # read file contents as text
-        file_contents = Path(input_file_path).read_text()
+        file_contents = Path(input_file_path).read_text(encoding="utf-8")
 
         # parse as `from_string()`
         return self.from_string(file_contents)
diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 1aa9f8f..6a3c130 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -175,7 +175,7 @@ class NdmKvnIo:
         object
             Object tree from the file contents
         """
-        with open(kvn_read_file_path, "r") as f:
+        with open(kvn_read_file_path, "r", encoding="utf-8") as f:
             kvn_source = f.read()
 
         return self.from_string(kvn_source)
@@ -226,7 +226,7 @@ class NdmKvnIo:
         kvn_write_file_path : Path
             Path of the XML file to be written
         """
-        kvn_write_file_path.write_text(self.to_string(ndm_obj))
+        kvn_write_file_path.write_text(self.to_string(ndm_obj), encoding="utf-8")
 
     def to_string(self, ndm_obj):
         """
diff --git a/ccsds_ndm/ndm_xml_io.py b/ccsds_ndm/ndm_xml_io.py
index a64278c..8cabf6d 100644
--- a/ccsds_ndm/ndm_xml_io.py
+++ b/ccsds_ndm/ndm_xml_io.py
@@ -81,7 +81,7 @@ class NdmXmlIo:
             Object tree from the file contents
         """
         # read file contents as text
-        file_contents = Path(xml_read_file_path).read_text()
+        file_contents = Path(xml_read_file_path).read_text(encoding="utf-8")
 
         # parse as `from_string()`
         return self.from_string(file_contents)
@@ -200,7 +200,7 @@ class NdmXmlIo:
             no_namespace_schema_location=no_namespace_schema_location,
             schema_location=schema_location,
         )
-        Path(xml_write_file_path).write_text(xml_txt)
+        Path(xml_write_file_path).write_text(xml_txt, encoding="utf-8")
 
     def __init_parser(self):
         """
-- 
2.43.0


From 06c73749e232c13739472535b4834bdba7f59f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:00 +0000
Subject: [PATCH 04/30] fix: accept a plain string as the path of the KVN file
 to be written

---
 ccsds_ndm/ndm_kvn_io.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 6a3c130..37a76aa 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -12,6 +12,7 @@ from copy import deepcopy
 from dataclasses import dataclass, field
 from decimal import Decimal
 from enum import Enum
+from pathlib import Path
 from typing import Any, Dict, List
 
 from lxml import etree
@@ -223,10 +224,10 @@ class NdmKvnIo:
         ----------
         ndm_obj
             input object tree
-        kvn_write_file_path : Path
-            Path of the XML file to be written
+        kvn_write_file_path : Path or AnyStr
+            Path of the KVN file to be written
         """
-        kvn_write_file_path.write_text(self.to_string(ndm_obj), encoding="utf-8")
+        Path(kvn_write_file_path).write_text(self.to_string(ndm_obj), encoding="utf-8")
 
     def to_string(self, ndm_obj):
         """
-- 
2.43.0


From 764b16e766271befd9b058ac376a92defd97dbf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:24 +0000
Subject: [PATCH 05/30] fix: use the schema locations of each call, not those
 of the first one, in XML output

---
 ccsds_ndm/ndm_xml_io.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/ccsds_ndm/ndm_xml_io.py b/ccsds_ndm/ndm_xml_io.py
index 8cabf6d..644407b 100644
--- a/ccsds_ndm/ndm_xml_io.py
+++ b/ccsds_ndm/ndm_xml_io.py
@@ -165,14 +165,13 @@ class NdmXmlIo:
         str
             given object tree as xml string
         """
-        # lazy init serializer
-        if self.serializer is None:
-            self.__init_serializer(
-                no_namespace_schema_location=no_namespace_schema_location,
-                schema_location=schema_location,
-            )
+        # init serializer (the schema locations may differ from those of the last call)
+        serializer = self.__init_serializer(
+            no_namespace_schema_location=no_namespace_schema_location,
+            schema_location=schema_location,
+        )
 
-        return self.serializer.render(ndm_obj)
+        return serializer.render(ndm_obj)
 
     def to_file(
         self,
@@ -221,13 +220,20 @@ class NdmXmlIo:
             Specify the xsi:schemaLocation attribute value
         no_namespace_schema_location: str
             Specify the xsi:noNamespaceSchemaLocation attribute value
+
+        Returns
+        -------
+        XmlSerializer
+            The internal serializer
         """
         config = SerializerConfig(
             pretty_print=True,
             schema_location=schema_location,
             no_namespace_schema_location=no_namespace_schema_location,
         )
-        self.serializer = XmlSerializer(config=config)
+        serializer = XmlSerializer(config=config)
+        self.serializer = serializer
+        return serializer
 
 
 def _identify_data_type(xml_source):
-- 
2.43.0


From 34dbb974a30554b8c15b661cefde2748976b5028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:40 +0000
Subject: [PATCH 06/30] fix: treat lower case AEM attitude and quaternion types
 in KVN like the upper case ones

---
 ccsds_ndm/ndm_kvn_io.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 37a76aa..5451877 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -963,7 +963,7 @@ class NdmKvnIo:
         att_type_line_index = self._keys.index(
             "ATTITUDE_TYPE", root_ndm_elem.min_max.max
         )
-        att_type_key = self._lines[att_type_line_index][1]
+        att_type_key = self._lines[att_type_line_index][1].upper()
         att_type_value = self.__att_types.get(att_type_key)
 
         kw_template = ["EPOCH"]
@@ -972,7 +972,7 @@ class NdmKvnIo:
             q_type_line_index = self._keys.index(
                 "QUATERNION_TYPE", root_ndm_elem.min_max.max
             )
-            q_type_key = self._lines[q_type_line_index][1]
+            q_type_key = self._lines[q_type_line_index][1].upper()
 
             if q_type_key == "FIRST":
                 kw_template.extend(["QC", "Q1", "Q2", "Q3"])
@@ -1561,7 +1561,7 @@ def _collate_special_data_str_out(key, ndm_obj, out_str):
                     x for x in reversed(out_str) if x.startswith("QUATERNION_TYPE")
                 ).split("=")[-1]
 
-                quat_last = True if quat_type.strip().startswith("LAST") else False
+                quat_last = True if quat_type.strip().upper().startswith("LAST") else False
 
                 if quat_last:
                     line = [
-- 
2.43.0


From 7f085264b94e275e4e43724869f579610db31175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:08 +0000
Subject: [PATCH 07/30] fix: keep the spin (and nutation) data of AEM files in
 KVN input and output

---
 ccsds_ndm/ndm_kvn_io.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 5451877..6a0c136 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -36,6 +36,8 @@ from ccsds_ndm.models.ndmxml2 import (
     QuaternionDerivativeType,
     QuaternionEulerRateType,
     Rdm,
+    SpinNutationType,
+    SpinType,
     StateVectorAccType,
     Tdm,
     TdmData,
@@ -996,6 +998,13 @@ class NdmKvnIo:
             if att_type_key.endswith("RATE"):
                 kw_template.extend([self.__euler_rate_id[key] for key in eu_type_key])
 
+        if att_type_key.startswith("SPIN"):
+            kw_template.extend(
+                ["SPIN_ALPHA", "SPIN_DELTA", "SPIN_ANGLE", "SPIN_ANGLE_VEL"]
+            )
+            if att_type_key.endswith("NUTATION"):
+                kw_template.extend(["NUTATION", "NUTATION_PER", "NUTATION_PHASE"])
+
         # delete unused att types
         for att_state in att_states:
             att_state.special_data["template"] = kw_template
@@ -1605,6 +1614,9 @@ def _collate_special_data_str_out(key, ndm_obj, out_str):
                                 str(rot_objects[0]["q3_dot"]),
                             ]
                         )
+            elif isinstance(att_obj[0], (SpinType, SpinNutationType)):
+                # process spin data - no rot objects, values only
+                line = [str(rot_object["value"]) for rot_object in rot_objects]
             else:
                 # process normally - extract values from the rot objects
                 line = [
-- 
2.43.0


From d9e0656b263b9d467e8b16de6478034720c1d24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:22 +0000
Subject: [PATCH 08/30] fix: write AEM quaternion derivatives to KVN

---
 ccsds_ndm/ndm_kvn_io.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 6a0c136..c242267 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -1599,19 +1599,19 @@ def _collate_special_data_str_out(key, ndm_obj, out_str):
                     if quat_last:
                         line.extend(
                             [
-                                str(rot_objects[0]["q1_dot"]),
-                                str(rot_objects[0]["q2_dot"]),
-                                str(rot_objects[0]["q3_dot"]),
-                                str(rot_objects[0]["qc_dot"]),
+                                str(rot_objects[1]["q1_dot"].value),
+                                str(rot_objects[1]["q2_dot"].value),
+                                str(rot_objects[1]["q3_dot"].value),
+                                str(rot_objects[1]["qc_dot"].value),
                             ]
                         )
                     else:
                         line.extend(
                             [
-                                str(rot_objects[0]["qc_dot"]),
-                                str(rot_objects[0]["q1_dot"]),
-                                str(rot_objects[0]["q2_dot"]),
-                                str(rot_objects[0]["q3_dot"]),
+                                str(rot_objects[1]["qc_dot"].value),
+                                str(rot_objects[1]["q1_dot"].value),
+                                str(rot_objects[1]["q2_dot"].value),
+                                str(rot_objects[1]["q3_dot"].value),
                             ]
                         )
             elif isinstance(att_obj[0], (SpinType, SpinNutationType)):
-- 
2.43.0


From e386e681d29076a2fbd692cdaa0e328267ec61e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:47 +0000
Subject: [PATCH 09/30] fix: write angle observations of TDM data to KVN

---
 ccsds_ndm/ndm_kvn_io.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index c242267..0e153e7 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -1632,10 +1632,11 @@ def _collate_special_data_str_out(key, ndm_obj, out_str):
     if type(ndm_obj) is TrackingDataObservationType:
         # find element with data
 
+        # ("value" if something like AngleType, Decimal otherwise)
         item_key, item_value = [
-            (k, v)
+            (k, getattr(v, "value", v))
             for k, v in vars(ndm_obj).items()
-            if isinstance(v, Decimal) and k != "epoch"
+            if v is not None and k != "epoch"
         ][0]
 
         return [
-- 
2.43.0


From 41988848fde669d9cb3d168aae55484ac25f2280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:32 +0000
Subject: [PATCH 10/30] fix: do not take TDM metadata with a date-like value
 for an observation

---
 ccsds_ndm/ndm_kvn_io.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 0e153e7..613a97c 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -1125,7 +1125,12 @@ def _identify_special_sub_segments(root_ndm_elem, keys, lines, init_index, prefi
         datestr = lines[init_index][1].split()[0]
 
         # can be of format "2007-075T16:50:01" or normal ISO string
-        if datestr[:4].isnumeric() and datestr[4] == "-":
+        # (metadata of the next segment may also have such values)
+        if (
+            keys[init_index] in root_ndm_elem.kw_list
+            and datestr[:4].isnumeric()
+            and datestr[4] == "-"
+        ):
             root_min_max = _MinMaxTuple(init_index, init_index + 1)
         else:
             # line is not of correct type, just skip it
-- 
2.43.0


From 57fa27303f56194dd5855b9bce32201227975812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:09 +0000
Subject: [PATCH 11/30] fix: keep COV_REF_FRAME of OEM covariances in KVN
 input, not take it for a covariance value

---
 ccsds_ndm/ndm_kvn_io.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 613a97c..bcec85f 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -933,9 +933,9 @@ class NdmKvnIo:
             xml_data = _xmlify_list(root_ndm_elem.name, synth_lines)
 
         elif root_ndm_elem.clazz is OemCovarianceMatrixType:
-            # Stacked covariance data
-            datalines = [line[0].split() for line in lines if not line[0].isalpha()]
-            kvnlines = [line for line in lines if line[0].isalpha()]
+            # Stacked covariance data (lines without a "key = value" pair)
+            datalines = [line[0].split() for line in lines if len(line) == 1]
+            kvnlines = [line for line in lines if len(line) > 1]
             # flatten the list
             data_list = [item for sublist in datalines for item in sublist]
             synth_lines = list(zip(kw_list[3:], data_list))
-- 
2.43.0


From 63df580315c6d95af059afe9de890df19db35bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:05 +0000
Subject: [PATCH 12/30] fix: do not mix the optional fields of consecutive
 segments in KVN input

---
 ccsds_ndm/ndm_kvn_io.py | 61 ++++++++++++++++++++++++++++++++++++++---
 1 file changed, 57 insertions(+), 4 deletions(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index bcec85f..072ed9c 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -756,9 +756,12 @@ class NdmKvnIo:
             else:
                 clean_obj = deepcopy(subclass)
 
-            # identify subclasses and find limits
+            # identify subclasses and find limits (without reaching into the next
+            # element of the list)
+            next_elem_index = _get_next_elem_index(clean_obj, init_index, keys)
+            elem_keys = keys[:next_elem_index] if next_elem_index else keys
             max_index, subclass_min_max = self.__identify_sub_segments(
-                clean_obj, keys, lines, init_index
+                clean_obj, elem_keys, lines, init_index
             )
 
             if max_index == subclass_min_max.min == subclass_min_max.max:
@@ -1127,7 +1130,7 @@ def _identify_special_sub_segments(root_ndm_elem, keys, lines, init_index, prefi
         # can be of format "2007-075T16:50:01" or normal ISO string
         # (metadata of the next segment may also have such values)
         if (
-            keys[init_index] in root_ndm_elem.kw_list
+            lines[init_index][0] in root_ndm_elem.kw_list
             and datestr[:4].isnumeric()
             and datestr[4] == "-"
         ):
@@ -1234,6 +1237,56 @@ def _get_index(key, keys, *args):
         pass
 
 
+def _get_next_elem_index(list_elem, start_index, keys):
+    """
+    Gets the index where the next element (e.g. segment) of a list starts.
+
+    The elements are told apart by the first mandatory keyword of their first subclass
+    (e.g. `OBJECT_NAME` of the metadata). The next element also claims the comments and
+    the optional keywords just before this keyword.
+
+    Parameters
+    ----------
+    list_elem : _NdmElement
+        Element of the list
+    start_index : int
+        Index where the current element starts
+    keys : list[str]
+        List of keys
+
+    Returns
+    -------
+    index : int or None
+        Index where the next element starts, `None` if there are no more elements
+
+    """
+    if not list_elem.subclass_list:
+        return None
+
+    preceding_kws = []
+    for var in vars(list_elem.subclass_list[0].clazz)["__dataclass_fields__"].values():
+        keyword = var.metadata.get("name", "")
+
+        if not var.metadata.get("required"):
+            preceding_kws.append(keyword)
+            continue
+
+        elem_index = _get_index(keyword, keys, start_index)
+        if elem_index is None:
+            break
+
+        next_index = _get_index(keyword, keys, elem_index + 1)
+        if next_index is None:
+            break
+
+        while keys[next_index - 1] in preceding_kws:
+            next_index -= 1
+
+        return next_index
+
+    return None
+
+
 def _get_ccsds_kw_list(clazz):
     """
     Extracts and returns the keyword list from the class `clazz`.
@@ -1272,7 +1325,7 @@ def __process_comment_lines(tags, start_index, keys, index_list):
     if "COMMENT" in tags:
         if len(tags) == 1:
             # no tags, this is a header sort of class, claim just one COMMENT tag, if available
-            if keys[start_index] == "COMMENT":
+            if start_index < len(keys) and keys[start_index] == "COMMENT":
                 index_list.extend([start_index])
 
         elif len(index_list) > 0:
-- 
2.43.0


From a349082b37f6579aba2b4252991e2523b87b961e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:36 +0000
Subject: [PATCH 13/30] fix: keep all comments (and the data after them) of
 AEM, OEM and TDM data sections in KVN input

---
 ccsds_ndm/ndm_kvn_io.py | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 072ed9c..dc43036 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -638,6 +638,7 @@ class NdmKvnIo:
                 keys,
                 prefix=prefix,
                 single_elem=root_ndm_elem.single_elem,
+                all_comments=_has_all_comments(root_ndm_elem),
             )
 
         # set index to end of keywords
@@ -1311,12 +1312,23 @@ def _get_ccsds_kw_list(clazz):
         return []
 
 
-def __process_comment_lines(tags, start_index, keys, index_list):
+def _has_all_comments(ndm_elem):
+    """
+    Returns `True` if the comments before the first subclass can only belong to
+    `ndm_elem` itself (e.g. the comments before the lines of numerical data).
+    """
+    subclasses = ndm_elem.subclass_list
+    return bool(subclasses) and "COMMENT" not in subclasses[0].kw_list
+
+
+def __process_comment_lines(tags, start_index, keys, index_list, all_comments=False):
     """
     Process comments with the following algorithm:
         1. If there are no COMMENT tags in the class, skip processing
         2. If there is only COMMENT tag in the class, add a single line of comment,
-           if available (indicates a container type class like data or metadata)
+           if available (indicates a container type class like data or metadata).
+           If the next block cannot have comments (`all_comments`), add all the
+           comments up to this block.
         3. If all tags are empty, skip processing; the comments likely belong to another
            block later on in the file
         4. If some tags are filled, add all comments between `start_index` and
@@ -1325,8 +1337,11 @@ def __process_comment_lines(tags, start_index, keys, index_list):
     if "COMMENT" in tags:
         if len(tags) == 1:
             # no tags, this is a header sort of class, claim just one COMMENT tag, if available
-            if start_index < len(keys) and keys[start_index] == "COMMENT":
-                index_list.extend([start_index])
+            while start_index < len(keys) and keys[start_index] == "COMMENT":
+                index_list.append(start_index)
+                start_index += 1
+                if not all_comments:
+                    break
 
         elif len(index_list) > 0:
             # some data is available, claim all comments between start_index and max_index
@@ -1342,7 +1357,9 @@ def __process_comment_lines(tags, start_index, keys, index_list):
             index_list.extend(comment_indexes)
 
 
-def _get_min_max_indices(tags, start_index, keys, prefix=None, single_elem=None):
+def _get_min_max_indices(
+    tags, start_index, keys, prefix=None, single_elem=None, all_comments=False
+):
     """
     Gets the min/max indices of the section.
 
@@ -1367,7 +1384,7 @@ def _get_min_max_indices(tags, start_index, keys, prefix=None, single_elem=None)
     ]
 
     # add all comment lines
-    __process_comment_lines(tags, start_index, keys, index_list)
+    __process_comment_lines(tags, start_index, keys, index_list, all_comments)
 
     # check for non-consecutive data and chop them if necessary
     if index_list:
-- 
2.43.0


From 5cb628be75d684f90a627a32f77d3b5dc9e42652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:22 +0000
Subject: [PATCH 14/30] fix: write the comments of OEM covariances to KVN as
 comments

---
 ccsds_ndm/ndm_kvn_io.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index dc43036..fcf4e29 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -1721,7 +1721,9 @@ def _collate_special_data_str_out(key, ndm_obj, out_str):
     if type(ndm_obj) is OemCovarianceMatrixType:
         lines = []
         # comment line
-        lines.extend([_fill_str_out_kvn(key, comment) for comment in ndm_obj.comment])
+        lines.extend(
+            [_fill_str_out_kvn("comment", comment) for comment in ndm_obj.comment]
+        )
 
         lines.append(_fill_str_out_kvn("epoch", ndm_obj.epoch))
 
-- 
2.43.0


From 6705db0c09bbd6a491b9174f848ea4c8960448e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:50 +0000
Subject: [PATCH 15/30] fix: do not build optional elements without any content
 in KVN input

---
 ccsds_ndm/ndm_kvn_io.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index fcf4e29..177e77f 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -882,6 +882,13 @@ class NdmKvnIo:
                     getattr(ndm_object, subclass.name).append(subobject)
             else:
                 # this is not a list, just replace the data
+                # (an optional element without any content is not there at all)
+                subfield = type(ndm_object).__dataclass_fields__[subclass.name]
+                if (
+                    not subfield.metadata.get("required")
+                    and subobject == subclass.clazz()
+                ):
+                    subobject = None
                 setattr(ndm_object, subclass.name, subobject)
 
         return ndm_object
-- 
2.43.0


From 14cd49408ea328674cda72376a4c56742d46499f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:21 +0000
Subject: [PATCH 16/30] fix: keep the comments of user defined parameters in
 KVN input

---
 ccsds_ndm/ndm_kvn_io.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 177e77f..74b5ce4 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -1471,20 +1471,17 @@ def _xmlify_list(root_tag, item_list, prefix=None):
     # create XML
     root = etree.Element(root_tag)
 
-    if prefix:
-        for item in item_list:
+    for item in item_list:
+        if prefix and item[0] != "COMMENT":
             child = etree.Element(prefix)
             child.attrib["parameter"] = item[0].replace(prefix + "_", "")
-            child.text = item[1]
-            root.append(child)
-    else:
-        for item in item_list:
+        else:
             child = etree.Element(item[0])
             if len(item) > 2:
                 # add units if available
                 child.attrib["units"] = item[2]
-            child.text = item[1]
-            root.append(child)
+        child.text = item[1]
+        root.append(child)
 
     return etree.tostring(root, pretty_print=True)
 
-- 
2.43.0


From 9971f779d2608262959e0830bdaa12f44030571c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:09 +0000
Subject: [PATCH 17/30] fix: refuse unknown output formats instead of silently
 writing nothing

---
 ccsds_ndm/ndm_io.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ccsds_ndm/ndm_io.py b/ccsds_ndm/ndm_io.py
index 88a73c9..35b48b4 100644
--- a/ccsds_ndm/ndm_io.py
+++ b/ccsds_ndm/ndm_io.py
@@ -135,6 +135,8 @@ class NdmIo:
                 "JSON input has not been defined in the CCSDS standard."
             )
 
+        raise ValueError(f"NDM Data format not recognised: {data_format}")
+
     def to_file(self, ndm_obj, data_format, xml_write_file_path, **kwargs):
         """
         Convert and return the given object tree as output file.
@@ -164,6 +166,8 @@ class NdmIo:
                 "JSON input has not been defined in the CCSDS standard."
             )
 
+        raise ValueError(f"NDM Data format not recognised: {data_format}")
+
 
 def _identify_data_format(ndm_data_source):
     """
-- 
2.43.0


From a1c660ed31254c350f112c1b93309349b57d9339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:31 +0000
Subject: [PATCH 18/30] fix: do not empty an existing file when the text cannot
 be encoded

---
 ccsds_ndm/ndm_kvn_io.py | 4 +++-
 ccsds_ndm/ndm_xml_io.py | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 74b5ce4..a5d611e 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -229,7 +229,9 @@ class NdmKvnIo:
         kvn_write_file_path : Path or AnyStr
             Path of the KVN file to be written
         """
-        Path(kvn_write_file_path).write_text(self.to_string(ndm_obj), encoding="utf-8")
+        # encode before opening: a text that cannot be encoded must not empty the file
+        kvn_bytes = self.to_string(ndm_obj).encode("utf-8")
+        Path(kvn_write_file_path).write_bytes(kvn_bytes)
 
     def to_string(self, ndm_obj):
         """
diff --git a/ccsds_ndm/ndm_xml_io.py b/ccsds_ndm/ndm_xml_io.py
index 644407b..21f8958 100644
--- a/ccsds_ndm/ndm_xml_io.py
+++ b/ccsds_ndm/ndm_xml_io.py
@@ -199,7 +199,8 @@ class NdmXmlIo:
             no_namespace_schema_location=no_namespace_schema_location,
             schema_location=schema_location,
         )
-        Path(xml_write_file_path).write_text(xml_txt, encoding="utf-8")
+        # encode before opening: a text that cannot be encoded must not empty the file
+        Path(xml_write_file_path).write_bytes(xml_txt.encode("utf-8"))
 
     def __init_parser(self):
         """
-- 
2.43.0


From 3aa6be6466965aa85f37463a8dc4317fa5b00977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:14 +0000
Subject: [PATCH 19/30] fix: do not report the first rotation of an APM again
 when a later one is missing in KVN input

---
 ccsds_ndm/ndm_kvn_io.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index a5d611e..482468a 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -706,9 +706,12 @@ class NdmKvnIo:
                 if (
                     subclass.min_max.min == subclass.min_max.max
                     and not subclass.subclass_list
+                    and not subclass.single_elem
                 ):
                     # class returned empty, could be a final level nested class.
                     # Try again from root start point but do not trigger max_point
+                    # (single elements follow each other, the first lines belong
+                    # to the previous ones)
                     mock_max_index, subclass_min_max = self.__identify_sub_segments(
                         subclass, keys, lines, root_min_max.min
                     )
-- 
2.43.0


From 0923dfb636f04bf5c9235dc9c89053f2ca7f0d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:57 +0000
Subject: [PATCH 20/30] fix: do not take the attitude type of another segment
 for the AEM data of a segment without one in KVN input

---
 ccsds_ndm/ndm_kvn_io.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 482468a..7e01323 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -977,10 +977,11 @@ class NdmKvnIo:
 
         att_states = root_ndm_elem.subclass_list[1].subclass_list
 
+        # lines of the metadata (other segments have attitude types of their own)
+        meta = root_ndm_elem.subclass_list[0].min_max
+
         # Find the Attitude Type line within the segment
-        att_type_line_index = self._keys.index(
-            "ATTITUDE_TYPE", root_ndm_elem.min_max.max
-        )
+        att_type_line_index = self._keys.index("ATTITUDE_TYPE", meta.min, meta.max)
         att_type_key = self._lines[att_type_line_index][1].upper()
         att_type_value = self.__att_types.get(att_type_key)
 
@@ -988,7 +989,7 @@ class NdmKvnIo:
 
         if att_type_key.startswith("QUATERNION"):
             q_type_line_index = self._keys.index(
-                "QUATERNION_TYPE", root_ndm_elem.min_max.max
+                "QUATERNION_TYPE", meta.min, meta.max
             )
             q_type_key = self._lines[q_type_line_index][1].upper()
 
@@ -1005,7 +1006,7 @@ class NdmKvnIo:
 
         if att_type_key.startswith("EULER") or att_type_key.endswith("RATE"):
             eu_type_line_index = self._keys.index(
-                "EULER_ROT_SEQ", root_ndm_elem.min_max.max
+                "EULER_ROT_SEQ", meta.min, meta.max
             )
             eu_type_key = self._lines[eu_type_line_index][1]
 
-- 
2.43.0


From 8c50ffb4e88f2629112a02d97ac3fc13d15e0049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:26 +0000
Subject: [PATCH 21/30] fix: do not take lines between user defined parameters
 for user defined parameters in KVN input

---
 ccsds_ndm/ndm_kvn_io.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 7e01323..eaa261c 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -856,8 +856,14 @@ class NdmKvnIo:
                 if not prefix:
                     # intersect list with keywords as a final check
                     # protects from wrong keywords on nested structures
-                    # if prefix is present, then
                     local_lines = [line for line in local_lines if line[0] in kw_list]
+                else:
+                    # keep only the keywords with this prefix and the comments
+                    local_lines = [
+                        line
+                        for line in local_lines
+                        if line[0].startswith(prefix) or line[0] == "COMMENT"
+                    ]
 
                 if not local_lines and not root_ndm_elem.subclass_list:
                     # item has no subclasses and no content, just skip it
-- 
2.43.0


From c197e50041cf5660372534426a1d2b57d1721ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:26 +0000
Subject: [PATCH 22/30] fix: do not complete the metadata of a segment with
 those of the next one in KVN input

---
 ccsds_ndm/ndm_kvn_io.py | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index eaa261c..1e238be 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -163,6 +163,7 @@ class NdmKvnIo:
 
     _keys: List[str] = []
     _lines: List[List[str]] = []
+    _segment_starts: List[int] = []
 
     def from_path(self, kvn_read_file_path):
         """
@@ -204,8 +205,15 @@ class NdmKvnIo:
         ndm_class = _identify_data_type(self._lines)
 
         # Delete unnecessary keywords if necessary
+        self._segment_starts = []
         if ndm_class in _deleted_keywords.keys():
             deleted_keys = _deleted_keywords.get(ndm_class)
+            # keep in mind where the segments start
+            self._segment_starts = [
+                len([key for key in self._keys[:i] if key not in deleted_keys])
+                for i, key in enumerate(self._keys)
+                if key == "META_START"
+            ]
             self._keys = [key for key in self._keys if key not in deleted_keys]
             self._lines = [line for line in self._lines if line[0] not in deleted_keys]
 
@@ -766,11 +774,20 @@ class NdmKvnIo:
             # element of the list)
             next_elem_index = _get_next_elem_index(clean_obj, init_index, keys)
             elem_keys = keys[:next_elem_index] if next_elem_index else keys
+            next_start = None
+            if subclass.name == "segment":
+                next_start = self._get_next_segment_start(init_index)
+                elem_keys = elem_keys[:next_start]
             max_index, subclass_min_max = self.__identify_sub_segments(
                 clean_obj, elem_keys, lines, init_index
             )
 
             if max_index == subclass_min_max.min == subclass_min_max.max:
+                if next_start is not None:
+                    # nothing but unknown lines before the next segment, skip them
+                    init_index = last_max_index = next_start
+                    continue
+
                 # list is completed, no more elements
                 has_elements = False
             elif subclass_min_max.min > last_max_index:
@@ -794,6 +811,15 @@ class NdmKvnIo:
 
         return max_index
 
+    def _get_next_segment_start(self, start_index):
+        """
+        Gets the index where the segment after the one at `start_index` starts, `None` if
+        there are no more segments (comments just before a segment belong to it).
+        """
+        for index in self._segment_starts:
+            if any(key != "COMMENT" for key in self._keys[start_index:index]):
+                return index
+
     def _build_object(self):
         """
         Builds the object processing the data lines and object tree recursively.
-- 
2.43.0


From d95596b9ee55a813c36b69082689ac42e65513a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:43 +0000
Subject: [PATCH 23/30] fix: keep user defined parameter names that contain
 USER_DEFINED_ in KVN input

---
 ccsds_ndm/ndm_kvn_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 1e238be..c1560fd 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -1512,7 +1512,7 @@ def _xmlify_list(root_tag, item_list, prefix=None):
     for item in item_list:
         if prefix and item[0] != "COMMENT":
             child = etree.Element(prefix)
-            child.attrib["parameter"] = item[0].replace(prefix + "_", "")
+            child.attrib["parameter"] = item[0].replace(prefix + "_", "", 1)
         else:
             child = etree.Element(item[0])
             if len(item) > 2:
-- 
2.43.0


From ee35bfeb573078f0a883c66407abd6264e116cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:13 +0000
Subject: [PATCH 24/30] fix: do not add the data of the next segment to a
 segment when the metadata in between are missing in KVN input

---
 ccsds_ndm/ndm_kvn_io.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index c1560fd..fc6d252 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -1146,6 +1146,10 @@ def _identify_special_sub_segments(root_ndm_elem, keys, lines, init_index, prefi
     root_min_max : _MinMaxTuple
         Min max limits of the element
     """
+    if len(keys) <= init_index < len(lines):
+        # the lines belong to the next segment, just skip them
+        return _MinMaxTuple(init_index, init_index)
+
     if (
         root_ndm_elem.clazz is StateVectorAccType
         or root_ndm_elem.clazz is AttitudeStateType
@@ -1207,7 +1211,7 @@ def _identify_special_sub_segments(root_ndm_elem, keys, lines, init_index, prefi
             i = temp_min_max.max
             while found_data:
                 try:
-                    float(lines[i][0].split()[0])
+                    float(keys[i].split()[0])
                     i += 1
                 except (ValueError, IndexError):
                     found_data = False
-- 
2.43.0


From 666ac065bf9dcc2e1dcdc028003c9416c2a003e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:00 +0000
Subject: [PATCH 25/30] fix: ignore the encoding and version in the XML
 declaration of decoded text

---
 ccsds_ndm/ndm_xml_io.py | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/ccsds_ndm/ndm_xml_io.py b/ccsds_ndm/ndm_xml_io.py
index 21f8958..f15dc7d 100644
--- a/ccsds_ndm/ndm_xml_io.py
+++ b/ccsds_ndm/ndm_xml_io.py
@@ -8,6 +8,7 @@ CCSDS Navigation Data Messages XML File I/O.
 
 """
 
+import re
 from enum import Enum
 from pathlib import Path
 from xml.parsers import expat
@@ -126,7 +127,7 @@ class NdmXmlIo:
 
         # bind to the identified type (automatic lookup through the names of all
         # dataclasses loaded in the process may end up with an unrelated class)
-        ndm = self.parser.from_string(xml_source, data_type)
+        ndm = self.parser.from_string(_strip_declaration(xml_source), data_type)
 
         # if the file is NDM, downcast the elements to their respective subclasses
         if isinstance(ndm, Ndm):
@@ -237,6 +238,28 @@ class NdmXmlIo:
         return serializer
 
 
+def _strip_declaration(xml_source):
+    """
+    Strips the XML declaration (e.g. `<?xml version="1.0" encoding="UTF-8"?>`).
+
+    The text is decoded already, so that its declaration does not apply to it any more:
+    the parser would decode the text once more with any other encoding declared, or
+    silently drop characters and entities if it does not know the encoding or version.
+
+    Parameters
+    ----------
+    xml_source : str
+        NDM Data as XML string
+
+    Returns
+    -------
+    str
+        NDM Data as XML string without the XML declaration
+
+    """
+    return re.sub(r"\A\s*<\?xml\s.*?\?>", "", xml_source, flags=re.DOTALL)
+
+
 def _identify_data_type(xml_source):
     """
     Identify the XML data type.
-- 
2.43.0


From d174c82998d792d007b12efa1cbf82d8af89ee25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:23 +0000
Subject: [PATCH 26/30] fix: keep the case of user-defined parameter names in
 KVN output

---
 ccsds_ndm/ndm_kvn_io.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index fc6d252..5a85dd2 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -375,12 +375,11 @@ class NdmKvnIo:
             # just a decimal type
             out_str.append(_fill_str_out_kvn(key, str(ndm_object)))
         elif key == "user_defined":
-            # "User defined" line
+            # "User defined" line (the case of the user's own names matters)
+            prefix = key.upper() + "_"
             out_str.extend(
                 [
-                    _fill_str_out_kvn(
-                        key + "_" + user_def.parameter, user_def.value or ""
-                    )
+                    f"{prefix + user_def.parameter:<20} = {user_def.value or ''}"
                     for user_def in ndm_object
                 ]
             )
-- 
2.43.0


From 139ccb18b78310f2acd86308f4331afc01e35e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:25 +0000
Subject: [PATCH 27/30] fix: keep all user-defined parameters of KVN input,
 also those with a name that occurs before

---
 ccsds_ndm/ndm_kvn_io.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 5a85dd2..e244e43 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -1431,6 +1431,14 @@ def _get_min_max_indices(
         index_name[1] for index_name in index_named_list if index_name[1] is not None
     ]
 
+    if prefix:
+        # the same name may occur more than once
+        index_list = [
+            index
+            for index, key in enumerate(keys)
+            if index >= start_index and key.startswith(prefix)
+        ]
+
     # add all comment lines
     __process_comment_lines(tags, start_index, keys, index_list, all_comments)
 
-- 
2.43.0


From 328e0b2ce9ca236adc5a28c8a61d8c5b00953403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:27 +0000
Subject: [PATCH 28/30] fix: refuse to write user-defined parameters as KVN
 with a name that would be read back as another one

---
 ccsds_ndm/ndm_kvn_io.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index e244e43..3a99bfe 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -377,6 +377,8 @@ class NdmKvnIo:
         elif key == "user_defined":
             # "User defined" line (the case of the user's own names matters)
             prefix = key.upper() + "_"
+            if any("=" in user_def.parameter for user_def in ndm_object):
+                raise ValueError("KVN names cannot have an equals sign in them.")
             out_str.extend(
                 [
                     f"{prefix + user_def.parameter:<20} = {user_def.value or ''}"
-- 
2.43.0


From 87741e2ae61d7bcd010cafd105c6cc2e6fdba0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:01 +0000
Subject: [PATCH 29/30] fix: refuse to write texts with control characters as
 KVN, which cannot be read back

---
 ccsds_ndm/ndm_kvn_io.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 3a99bfe..242e8f4 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -7,6 +7,7 @@
 CCSDS Navigation Data Messages KVN File I/O.
 
 """
+import re
 from collections import namedtuple
 from copy import deepcopy
 from dataclasses import dataclass, field
@@ -274,6 +275,12 @@ class NdmKvnIo:
         # join lines to a single large str
         kvn_string = "\n".join(out_str)
 
+        # such a text could not be read back
+        if re.search(
+            "[^\t\n\r\x20-\ud7ff\ue000-\ufffd\U00010000-\U0010ffff]", kvn_string
+        ):
+            raise ValueError("Texts cannot have NULL bytes or control characters.")
+
         # print(kvn_string)
 
         return kvn_string
-- 
2.43.0


From 9098213ae9f4de596923b45a77cf6861fe09c1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:20:13 +0000
Subject: [PATCH 30/30] fix: tell quaternions by their type, their text may be
 under way elsewhere in the thread

---
 ccsds_ndm/ndm_kvn_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 242e8f4..5ac5fb9 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -1691,7 +1691,7 @@ def _collate_special_data_str_out(key, ndm_obj, out_str):
         att_obj = [att for att in vars(ndm_obj).values() if att]
 
         if att_obj:
-            quaternion = True if str(att_obj[0]).startswith("Quaternion") else False
+            quaternion = type(att_obj[0]).__name__.startswith("Quaternion")
 
             # extract rot objects
             rot_objects = [
-- 
2.43.0

