From 88dc2a8c4507317b1d8adf104602e4b0b1049757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:03 +0000
Subject: [PATCH 01/18] fix: load_configuration reported a truncated, damaged
 or unreadable PMC as a shorter configuration

Any StreamError (short data, failing read, non-seekable stream) ended the loop as if it was
the end of the file. Read the stream once and require every record to be complete.
---
 procmon_parser/configuration_format.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/procmon_parser/configuration_format.py b/procmon_parser/configuration_format.py
index 8ee3e99..abb1cca 100644
--- a/procmon_parser/configuration_format.py
+++ b/procmon_parser/configuration_format.py
@@ -5,7 +5,7 @@ from collections import OrderedDict
 from io import BytesIO
 
 from construct import Struct, Int8ul, Int16ul, Int32ul, Bytes, PaddedString, Array, Const, Switch, Tell, Adapter, \
-    Rebuild, Default, Pointer, StreamError
+    Rebuild, Default, Pointer
 
 from procmon_parser.configuration import Column, RuleAction, RuleRelation, Rule, Font
 from procmon_parser.construct_helper import OriginalEnumAdapter, FixedUTF16String, FixedUTF16CString, FixedArray, \
@@ -189,13 +189,11 @@ def load_configuration(stream):
     """Deserialize ``stream`` (a ``.read()``-supporting file-like object) which contains PMC formatted data,
     to a Python dictionary with the parsed configuration records.
     """
+    data = stream.read()
+    data_stream = BytesIO(data)
     records = []
-    while True:
-        try:
-            name, data = Record.parse_stream(stream)
-            records.append((name, data))
-        except StreamError:
-            break
+    while data_stream.tell() < len(data):
+        records.append(Record.parse_stream(data_stream))
     return OrderedDict(records)
 
 
-- 
2.43.0


From f5cc489f3843e421ab223d5a621dc75f663ff080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:03 +0000
Subject: [PATCH 02/18] fix: dump_configuration needed a seekable stream and
 left half a file when a record is invalid

The sizes are back-patched with seek, which fails on write-only streams and corrupts the file on
append-mode streams; build the records in memory and write them at once.
---
 procmon_parser/configuration_format.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/procmon_parser/configuration_format.py b/procmon_parser/configuration_format.py
index abb1cca..c1b2bc5 100644
--- a/procmon_parser/configuration_format.py
+++ b/procmon_parser/configuration_format.py
@@ -210,8 +210,7 @@ def dump_configuration(records, stream):
     ``.write()``-supporting file-like object that returns the length written (for python2 use the io module)),
     in the format of PMC.
     """
-    for name, data in records.items():
-        Record.build_stream((name, data), stream)
+    stream.write(b"".join(Record.build((name, data)) for name, data in records.items()))
 
 
 def dumps_configuration(records):
-- 
2.43.0


From 6d125f1990ce4bcaa432820440b40ba8f841f032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:26 +0000
Subject: [PATCH 03/18] fix: rules whose value is a superscript digit or a
 number above 2^32-1 could not be dumped

---
 procmon_parser/configuration_format.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/procmon_parser/configuration_format.py b/procmon_parser/configuration_format.py
index c1b2bc5..fe06fb8 100644
--- a/procmon_parser/configuration_format.py
+++ b/procmon_parser/configuration_format.py
@@ -59,7 +59,11 @@ FontStruct = FontStructAdapter(LOGFONTW)
 
 def get_rule_integer_value(column, value):
     if value.isdigit():
-        return int(value)
+        try:
+            int_value = int(value)
+        except ValueError:  # digits which are not decimal numbers, like superscripts
+            return 0
+        return int_value if int_value <= 0xffffffff else 0
 
     if column == Column.ARCHITECTURE:
         return 32 if "32" in value else 64
-- 
2.43.0


From 6dde7ee2a4cc0f616d94a50463fa7c88db9da267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:26 +0000
Subject: [PATCH 04/18] fix: LOGFONTW heights are signed (Procmon saves
 negative ones)

---
 procmon_parser/configuration_format.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/procmon_parser/configuration_format.py b/procmon_parser/configuration_format.py
index fe06fb8..19b5f83 100644
--- a/procmon_parser/configuration_format.py
+++ b/procmon_parser/configuration_format.py
@@ -4,8 +4,8 @@ Definitions For the process monitor configuration file formats.
 from collections import OrderedDict
 from io import BytesIO
 
-from construct import Struct, Int8ul, Int16ul, Int32ul, Bytes, PaddedString, Array, Const, Switch, Tell, Adapter, \
-    Rebuild, Default, Pointer
+from construct import Struct, Int8ul, Int16ul, Int32ul, Int32sl, Bytes, PaddedString, Array, Const, Switch, Tell, \
+    Adapter, Rebuild, Default, Pointer
 
 from procmon_parser.configuration import Column, RuleAction, RuleRelation, Rule, Font
 from procmon_parser.construct_helper import OriginalEnumAdapter, FixedUTF16String, FixedUTF16CString, FixedArray, \
@@ -21,11 +21,11 @@ ColumnType = OriginalEnumAdapter(Int32ul, Column)
 LOGFONTW = """
 see https://docs.microsoft.com/en-us/windows/win32/api/wingdi/ns-wingdi-logfontw for documentation.
 """ * Struct(
-    "lfHeight" / Int32ul,
-    "lfWidth" / Int32ul,
-    "lfEscapement" / Int32ul,
-    "lfOrientation" / Int32ul,
-    "lfWeight" / Int32ul,
+    "lfHeight" / Int32sl,
+    "lfWidth" / Int32sl,
+    "lfEscapement" / Int32sl,
+    "lfOrientation" / Int32sl,
+    "lfWeight" / Int32sl,
     "lfItalic" / Int8ul,
     "lfUnderline" / Int8ul,
     "lfStrikeOut" / Int8ul,
-- 
2.43.0


From 956dde8e9bc957eabf5432de84b51fb913853c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:26 +0000
Subject: [PATCH 05/18] fix: an undefined column in ColumnMap silently cut the
 array short on load, and could be dumped

---
 procmon_parser/construct_helper.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/procmon_parser/construct_helper.py b/procmon_parser/construct_helper.py
index 3200246..d4fffdb 100644
--- a/procmon_parser/construct_helper.py
+++ b/procmon_parser/construct_helper.py
@@ -1,6 +1,6 @@
 from construct import Enum, Adapter, IfThenElse, PaddedString, CString, GreedyString, FixedSized, GreedyRange, Bytes, \
-    GreedyBytes, If, Check, CheckError
-from six import text_type, string_types
+    GreedyBytes, If, Check, CheckError, FocusedSeq, Terminated
+from six import text_type, string_types, integer_types
 
 
 # ===============================================================================
@@ -17,6 +17,11 @@ class OriginalEnumAdapter(Enum):
     def _decode(self, obj, context, path):
         return self.original_enum[super(OriginalEnumAdapter, self)._decode(obj, context, path)]
 
+    def _encode(self, obj, context, path):
+        if isinstance(obj, integer_types):
+            obj = self.original_enum(obj)  # raises if there is no such value
+        return super(OriginalEnumAdapter, self)._encode(obj, context, path)
+
 
 class ListAdapter(Adapter):
     """Used to decode regular python list instead of ListContainer
@@ -62,7 +67,9 @@ def FixedArray(size_func, subcon):
     """At parse time parses a fixed sized array, and at build time builds the array with its given size.
     """
     return ListAdapter(
-        IfThenElse(lambda this: this._parsing, FixedSized(size_func, GreedyRange(subcon)), GreedyRange(subcon)))
+        IfThenElse(lambda this: this._parsing,
+                   FixedSized(size_func, FocusedSeq("items", "items" / GreedyRange(subcon), Terminated)),
+                   GreedyRange(subcon)))
 
 
 def FixedBytes(size_func):
-- 
2.43.0


From ba3109229972ca6406200de0c030230b02d05fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:24 +0000
Subject: [PATCH 06/18] fix: read_all_events_from_pml silently dropped the
 events from an unreadable one on

list() over __getitem__ takes an IndexError raised while decoding an event
for the end of the log; a directory query with an empty path raised one.
---
 procmon_parser/__init__.py                  | 4 ++--
 procmon_parser/stream_logs_detail_format.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/procmon_parser/__init__.py b/procmon_parser/__init__.py
index 390bc44..317a73a 100644
--- a/procmon_parser/__init__.py
+++ b/procmon_parser/__init__.py
@@ -64,7 +64,7 @@ def read_all_events_from_pml(file):
     if not hasattr(file, 'read'):
         with open(file, "rb") as f:
             pml_reader = PMLStreamReader(f)
-            return list(pml_reader)
+            return pml_reader[:]
     else:
         pml_reader = PMLStreamReader(file)
-        return list(pml_reader)
+        return pml_reader[:]
diff --git a/procmon_parser/stream_logs_detail_format.py b/procmon_parser/stream_logs_detail_format.py
index d2c8bdb..22957e4 100644
--- a/procmon_parser/stream_logs_detail_format.py
+++ b/procmon_parser/stream_logs_detail_format.py
@@ -349,7 +349,7 @@ def get_filesystem_query_directory_details(io, metadata, event, details_io, extr
     directory_name_info = read_detail_string_info(io)
     directory_name = read_detail_string(io, directory_name_info)
     if directory_name:
-        event.path = event.path + directory_name if event.path[-1] == "\\" else event.path + "\\" + directory_name
+        event.path = event.path + directory_name if event.path.endswith("\\") else event.path + "\\" + directory_name
         event.details['Filter'] = directory_name
 
     details_io.seek(0x10, 1)
-- 
2.43.0


From 3edc2653b7b53dfa2718daf48793c478590c5dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:24 +0000
Subject: [PATCH 07/18] fix: HandleTags of RegSetInfoKey was never decoded

---
 procmon_parser/stream_logs_detail_format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/procmon_parser/stream_logs_detail_format.py b/procmon_parser/stream_logs_detail_format.py
index 22957e4..710e9ec 100644
--- a/procmon_parser/stream_logs_detail_format.py
+++ b/procmon_parser/stream_logs_detail_format.py
@@ -268,7 +268,7 @@ def get_registry_set_info_key_extra_details(metadata, event, extra_detail_io, de
             event.details["LastWriteTime"] = read_filetime(extra_detail_io)
         elif event.details["KeySetInformationClass"] == "KeyWow64FlagsInformation":
             event.details["Wow64Flags"] = read_u32(extra_detail_io)
-        elif event.details["KeySetInformationClass"] == "KeyWriteTimeInformation":
+        elif event.details["KeySetInformationClass"] == "KeySetHandleTagsInformation":
             event.details["HandleTags"] = read_u32(extra_detail_io)
 
 
-- 
2.43.0


From 4127a7e32927b2b3a3fc1faccfec642cf9d70ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:24 +0000
Subject: [PATCH 08/18] fix: the RAM size in system_details was one hundredth
 short for some sizes

---
 procmon_parser/logs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/procmon_parser/logs.py b/procmon_parser/logs.py
index 113c10b..94f3b48 100644
--- a/procmon_parser/logs.py
+++ b/procmon_parser/logs.py
@@ -346,6 +346,6 @@ class PMLStructReader(object):
             "Operating System": self._get_os_name(),
             "System Root": self.header.system_root,
             "Logical Processors": self.header.number_of_logical_processors,
-            "Memory (RAM)": "{} GB".format((self.header.ram_memory_size / (1024.0 ** 3)) // 0.01 / 100),
+            "Memory (RAM)": "{} GB".format((self.header.ram_memory_size * 100 // 1024 ** 3) / 100.0),
             "System Type": "64-bit" if self.header.is_64bit else "32-bit"
         }
-- 
2.43.0


From 30d7302d0280b6f55144dfd3faf619bfcc957fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:43 +0000
Subject: [PATCH 09/18] fix: an information class that is not in the tables
 made the whole event unreadable

---
 procmon_parser/stream_logs_detail_format.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/procmon_parser/stream_logs_detail_format.py b/procmon_parser/stream_logs_detail_format.py
index 710e9ec..32ede1a 100644
--- a/procmon_parser/stream_logs_detail_format.py
+++ b/procmon_parser/stream_logs_detail_format.py
@@ -141,12 +141,13 @@ def get_registry_load_or_rename_extra_details(metadata, event, extra_detail_io,
 
 def get_registry_query_or_enum_key_extra_details(metadata, event, extra_detail_io, details_info):
     event.category = "Read"  # RegQueryKey and RegEnumKey is always Read
-    key_information_class = RegistryKeyInformationClass(details_info["information_class"])
+    key_information_class = details_info["information_class"]
 
     if event.operation == RegistryOperation.RegEnumKey.name:
         event.details["Index"] = details_info["index"]  # Only in enum
     elif event.operation == RegistryOperation.RegQueryKey.name:
-        event.details["Query"] = key_information_class.name # Only in query
+        event.details["Query"] = get_enum_name_or(RegistryKeyInformationClass, key_information_class,
+                                                   "<Unknown: {}>".format(key_information_class))  # Only in query
 
     if not extra_detail_io:
         #  There is no extra details
@@ -200,7 +201,7 @@ def get_registry_query_or_enum_key_extra_details(metadata, event, extra_detail_i
 
 def get_registry_query_or_enum_value_extra_details(metadata, event, extra_detail_io, details_info):
     event.category = "Read"  # RegQueryValue and RegEnumValue are always Read
-    key_value_information_class = RegistryKeyValueInformationClass(details_info["information_class"])
+    key_value_information_class = details_info["information_class"]
 
     if event.operation == RegistryOperation.RegEnumValue.name:
         event.details["Index"] = details_info["index"]  # Only in enum
@@ -359,8 +360,9 @@ def get_filesystem_query_directory_details(io, metadata, event, details_io, extr
     if metadata.sizeof_pvoid == 8:
         details_io.seek(4, 1)  # Padding for 64 bit
 
-    file_information_class = FileInformationClass(read_u32(details_io))
-    event.details["FileInformationClass"] = file_information_class.name
+    file_information_class = read_u32(details_io)
+    event.details["FileInformationClass"] = get_enum_name_or(FileInformationClass, file_information_class,
+                                                             "<Unknown: {}>".format(file_information_class))
 
     if extra_detail_io and file_information_class in [FileInformationClass.FileDirectoryInformation,
                                                       FileInformationClass.FileFullDirectoryInformation,
-- 
2.43.0


From 9682a831c562eca0f72c1f147896118ce1efffe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:43 +0000
Subject: [PATCH 10/18] fix: should_get_details=False changed the path of
 QueryDirectory events

---
 procmon_parser/stream_logs_detail_format.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/procmon_parser/stream_logs_detail_format.py b/procmon_parser/stream_logs_detail_format.py
index 32ede1a..e256b29 100644
--- a/procmon_parser/stream_logs_detail_format.py
+++ b/procmon_parser/stream_logs_detail_format.py
@@ -345,12 +345,20 @@ def get_filesystem_read_metadata_details(io, metadata, event, details_io, extra_
     event.category = "Read Metadata"
 
 
-def get_filesystem_query_directory_details(io, metadata, event, details_io, extra_detail_io):
-    event.category = "Read Metadata"
+def read_filesystem_query_directory_name(io, event):
+    """Reads the directory name (or the filter) of the query, which is a part of the path of the event
+    """
     directory_name_info = read_detail_string_info(io)
     directory_name = read_detail_string(io, directory_name_info)
     if directory_name:
         event.path = event.path + directory_name if event.path.endswith("\\") else event.path + "\\" + directory_name
+    return directory_name
+
+
+def get_filesystem_query_directory_details(io, metadata, event, details_io, extra_detail_io):
+    event.category = "Read Metadata"
+    directory_name = read_filesystem_query_directory_name(io, event)
+    if directory_name:
         event.details['Filter'] = directory_name
 
     details_io.seek(0x10, 1)
@@ -639,6 +647,8 @@ def get_filesystem_event_details(io, metadata, event, extra_detail_io):
     event.path = read_detail_string(io, path_info)
     if metadata.should_get_details and event.operation in FilesystemSubOperationHandler:
         FilesystemSubOperationHandler[event.operation](io, metadata, event, details_io, extra_detail_io)
+    elif event.operation == FilesysemDirectoryControlOperation.QueryDirectory.name:
+        read_filesystem_query_directory_name(io, event)
 
 
 def get_process_created_details(io, metadata, event, extra_detail_io):
-- 
2.43.0


From 3f65c66ba090ee80092088ab4269490020b2d79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:43 +0000
Subject: [PATCH 11/18] fix: strings and details cut by the end of a truncated
 PML were returned shortened

---
 procmon_parser/stream_logs_format.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/procmon_parser/stream_logs_format.py b/procmon_parser/stream_logs_format.py
index 83f318f..8666c26 100644
--- a/procmon_parser/stream_logs_format.py
+++ b/procmon_parser/stream_logs_format.py
@@ -10,6 +10,15 @@ from procmon_parser.stream_helper import read_u8, read_u16, read_u32, read_u64,
 from procmon_parser.stream_logs_detail_format import PmlMetadata, get_event_details
 
 
+def read_exactly(io, size):
+    """Reads ``size`` bytes, a string that is cut by the end of the file shouldn't be taken for a shorter string.
+    """
+    data = io.read(size)
+    if len(data) != size:
+        raise PMLError("PML is truncated.")
+    return data
+
+
 class Header(object):
     SIZE = 0x3a8
 
@@ -80,7 +89,7 @@ class StringsTable(list):
         for i, offset in enumerate(strings_offsets_array):
             io.seek(string_table_start + offset, 0)
             string_size = read_u32(io)
-            strings[i] = read_utf16(io, string_size)
+            strings[i] = read_utf16(BytesIO(read_exactly(io, string_size)), string_size)
         self.extend(strings)
 
 
@@ -159,7 +168,7 @@ class HostnamesTable(dict):
         for _ in range(number_of_hostnames):
             ip = io.read(16)
             hostname_len = read_u32(io)
-            hostname = read_utf16(io, hostname_len)
+            hostname = read_utf16(BytesIO(read_exactly(io, hostname_len)), hostname_len)
             self[ip] = hostname
 
 
@@ -171,7 +180,7 @@ class PortsTable(dict):
             port_value = read_u16(io)
             is_tcp = bool(read_u16(io))
             port_len = read_u32(io)
-            port_name = read_utf16(io, port_len)
+            port_name = read_utf16(BytesIO(read_exactly(io, port_len)), port_len)
             self[(port_value, is_tcp)] = port_name
 
 
@@ -204,7 +213,7 @@ def read_event(io, metadata):
     event = Event(process=process, tid=tid, event_class=event_class, operation=operation, duration=duration,
                   date_filetime=date, result=result, stacktrace=stacktrace, category='', path='', details=details)
 
-    details_stream = BytesIO(io.read(details_size))
+    details_stream = BytesIO(read_exactly(io, details_size))
     extra_details_stream = None
     if extra_details_offset > 0:
         # The extra details structure surprisingly can be separated from the event structure
@@ -215,7 +224,7 @@ def read_event(io, metadata):
         current_offset = io.tell()
         io.seek(extra_details_offset, 1)
         extra_details_stream_size = read_u16(io)
-        extra_details_stream = BytesIO(io.read(extra_details_stream_size))
+        extra_details_stream = BytesIO(read_exactly(io, extra_details_stream_size))
         io.seek(current_offset, 0)
     get_event_details(details_stream, metadata, event, extra_details_stream)
     return event
-- 
2.43.0


From fbdb8e9c8a2452dedef8a81b793708471a21f73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:33 +0000
Subject: [PATCH 12/18] fix: rules were represented with enum names that do not
 exist (Relation, Action)

---
 procmon_parser/configuration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/procmon_parser/configuration.py b/procmon_parser/configuration.py
index d9828bf..95a5841 100644
--- a/procmon_parser/configuration.py
+++ b/procmon_parser/configuration.py
@@ -34,8 +34,8 @@ class Rule(object):
                                                  self.action.name.capitalize())
 
     def __repr__(self):
-        return "Rule(Column.{}, Relation.{}, \"{}\", Action.{})".format(self.column.name, self.relation.name,
-                                                                        self.value, self.action.name)
+        return "Rule(Column.{}, RuleRelation.{}, \"{}\", RuleAction.{})".format(self.column.name, self.relation.name,
+                                                                                self.value, self.action.name)
 
     def __hash__(self):
         return hash((self.column.value, self.relation.value, self.value, self.action.value))
-- 
2.43.0


From 0e504ad849444c9d68779b32760bc78a1a1f5624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:45 +0000
Subject: [PATCH 13/18] fix: strings cut by the end of the details of an event
 were returned shortened

---
 procmon_parser/stream_helper.py             | 11 +++++++++++
 procmon_parser/stream_logs_detail_format.py |  9 +++++----
 procmon_parser/stream_logs_format.py        | 11 +----------
 3 files changed, 17 insertions(+), 14 deletions(-)

diff --git a/procmon_parser/stream_helper.py b/procmon_parser/stream_helper.py
index ade2ec1..38ba932 100644
--- a/procmon_parser/stream_helper.py
+++ b/procmon_parser/stream_helper.py
@@ -1,5 +1,7 @@
 import struct
 
+from procmon_parser.logs import PMLError
+
 unpacker_u8 = struct.Struct('B').unpack
 unpacker_u16 = struct.Struct('<H').unpack
 unpacker_u32 = struct.Struct('<I').unpack
@@ -7,6 +9,15 @@ unpacker_u64 = struct.Struct('<Q').unpack
 unpacker_s64 = struct.Struct('<q').unpack
 
 
+def read_exactly(io, size):
+    """Reads ``size`` bytes, a string that is cut by the end of the data shouldn't be taken for a shorter string.
+    """
+    data = io.read(size)
+    if len(data) != size:
+        raise PMLError("PML is truncated.")
+    return data
+
+
 def read_u8(io):
     return unpacker_u8(io.read(1))[0]
 
diff --git a/procmon_parser/stream_logs_detail_format.py b/procmon_parser/stream_logs_detail_format.py
index e256b29..6888fec 100644
--- a/procmon_parser/stream_logs_detail_format.py
+++ b/procmon_parser/stream_logs_detail_format.py
@@ -11,7 +11,7 @@ from procmon_parser.consts import EventClass, ProcessOperation, RegistryOperatio
     get_filesystem_notify_change_flags, FilesystemSetInformationOperation, get_filesystem_createfilemapping_synctype, \
     PageProtection
 from procmon_parser.stream_helper import read_u8, read_u16, read_u32, read_utf16, read_duration, \
-    read_utf16_multisz, read_u64, read_filetime, read_s64
+    read_utf16_multisz, read_u64, read_filetime, read_s64, read_exactly
 
 PmlMetadata = namedtuple('PmlMetadata', ['str_idx', 'process_idx', 'hostname_idx', 'port_idx', 'read_pvoid',
                                          'sizeof_pvoid', 'should_get_stacktrace', 'should_get_details'])
@@ -52,9 +52,9 @@ def read_detail_string(io, string_info):
     """
     is_ascii, character_count = string_info
     if is_ascii:
-        return io.read(character_count).decode("ascii")
+        return read_exactly(io, character_count).decode("ascii")
     else:
-        return read_utf16(io, character_count * 2)
+        return read_utf16(BytesIO(read_exactly(io, character_count * 2)), character_count * 2)
 
 
 def get_profiling_event_details(io, metadata, event, extra_detail_io):
@@ -671,7 +671,8 @@ def get_process_started_details(io, metadata, event, extra_detail_io):
     environment_character_count = read_u32(io)
     event.details["Command line"] = read_detail_string(io, command_line_info)
     event.details["Current directory"] = read_detail_string(io, current_directory_info)
-    event.details["Environment"] = read_utf16_multisz(io, environment_character_count * 2)
+    environment_size = environment_character_count * 2
+    event.details["Environment"] = read_utf16_multisz(BytesIO(read_exactly(io, environment_size)), environment_size)
 
 
 def get_process_exit_details(io, metadata, event, extra_details_io):
diff --git a/procmon_parser/stream_logs_format.py b/procmon_parser/stream_logs_format.py
index 8666c26..a190139 100644
--- a/procmon_parser/stream_logs_format.py
+++ b/procmon_parser/stream_logs_format.py
@@ -6,19 +6,10 @@ from ipaddress import IPv4Address, IPv6Address
 from procmon_parser.consts import EventClass, EventClassOperation
 from procmon_parser.logs import PMLStructReader, Module, Process, Event, PMLError
 from procmon_parser.stream_helper import read_u8, read_u16, read_u32, read_u64, read_utf16, read_filetime, \
-    get_pvoid_reader, get_pvoid_size
+    read_exactly, get_pvoid_reader, get_pvoid_size
 from procmon_parser.stream_logs_detail_format import PmlMetadata, get_event_details
 
 
-def read_exactly(io, size):
-    """Reads ``size`` bytes, a string that is cut by the end of the file shouldn't be taken for a shorter string.
-    """
-    data = io.read(size)
-    if len(data) != size:
-        raise PMLError("PML is truncated.")
-    return data
-
-
 class Header(object):
     SIZE = 0x3a8
 
-- 
2.43.0


From 9131cbcd35ede3500ffde17df164d65e00d09397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:19 +0000
Subject: [PATCH 14/18] fix: an impersonating SID cut by the end of the details
 of a CreateFile event was shown as empty

---
 procmon_parser/stream_logs_detail_format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/procmon_parser/stream_logs_detail_format.py b/procmon_parser/stream_logs_detail_format.py
index 6888fec..1aac605 100644
--- a/procmon_parser/stream_logs_detail_format.py
+++ b/procmon_parser/stream_logs_detail_format.py
@@ -474,7 +474,7 @@ def get_filesystem_create_file_details(io, metadata, event, details_io, extra_de
     event.details["AllocationSize"] = allocation_value
 
     if impersonating_sid_length:
-        event.details["Impersonating"] = get_sid_string(io.read(impersonating_sid_length))
+        event.details["Impersonating"] = get_sid_string(read_exactly(io, impersonating_sid_length))
 
     open_result = None
     if extra_detail_io:
-- 
2.43.0


From 09b0ca3e3da63064571aa74724e90c46bb0a1760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:22 +0000
Subject: [PATCH 15/18] fix: a damaged number of events made the reader
 allocate up to 32 GB before failing

---
 procmon_parser/stream_logs_format.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/procmon_parser/stream_logs_format.py b/procmon_parser/stream_logs_format.py
index a190139..c732db8 100644
--- a/procmon_parser/stream_logs_format.py
+++ b/procmon_parser/stream_logs_format.py
@@ -61,11 +61,9 @@ class EventOffsetsArray(list):
     def __init__(self, io, total_size, number_of_events):
         super(EventOffsetsArray, self).__init__()
         stream = BytesIO(io.read(total_size))
-        offsets = [0] * number_of_events
-        for i in range(number_of_events):
-            offsets[i] = read_u32(stream)
+        for _ in range(number_of_events):
+            self.append(read_u32(stream))
             _ = read_u8(stream)  # Unknown flags
-        self.extend(offsets)
 
 
 class StringsTable(list):
-- 
2.43.0


From 5b43028313b9dfe14978e3387b3a63b76f3fad82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:45 +0000
Subject: [PATCH 16/18] fix: extra data placed inside its event was only
 refused by an assertion (not under python -O)

---
 procmon_parser/stream_logs_format.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/procmon_parser/stream_logs_format.py b/procmon_parser/stream_logs_format.py
index c732db8..d68b090 100644
--- a/procmon_parser/stream_logs_format.py
+++ b/procmon_parser/stream_logs_format.py
@@ -208,7 +208,8 @@ def read_event(io, metadata):
         # The extra details structure surprisingly can be separated from the event structure
         extra_details_offset -= \
             (CommonEventStruct.size + details_size + sizeof_stacktrace)
-        assert extra_details_offset >= 0
+        if extra_details_offset < 0:
+            raise PMLError("PML is corrupt and cannot be opened.")
 
         current_offset = io.tell()
         io.seek(extra_details_offset, 1)
-- 
2.43.0


From e8f16ae9a4c7ca176d62799bbf6681dc3fd626e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:09 +0000
Subject: [PATCH 17/18] fix: AM and PM were printed in the program's locale
 (missing or translated) instead of Procmon's form

---
 procmon_parser/logs.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/procmon_parser/logs.py b/procmon_parser/logs.py
index 94f3b48..a07a332 100644
--- a/procmon_parser/logs.py
+++ b/procmon_parser/logs.py
@@ -152,10 +152,12 @@ class Event(object):
         hundred_nanoseconds = (date_filetime % HUNDREDS_OF_NANOSECONDS)
         d = datetime.datetime.utcfromtimestamp((date_filetime - EPOCH_AS_FILETIME) // HUNDREDS_OF_NANOSECONDS)
 
+        am_pm = "AM" if d.hour < 12 else "PM"  # %p depends on the locale
+
         if show_nanoseconds:
-            time_of_day = d.strftime("%I:%M:%S.{:07d} %p").lstrip('0').format(hundred_nanoseconds)
+            time_of_day = d.strftime("%I:%M:%S.{:07d} {}").lstrip('0').format(hundred_nanoseconds, am_pm)
         else:
-            time_of_day = d.strftime("%I:%M:%S %p").lstrip('0')
+            time_of_day = d.strftime("%I:%M:%S {}").lstrip('0').format(am_pm)
 
         if not show_day:
             return time_of_day
-- 
2.43.0


From 0a2e678fcfe38b28c3b08bb319436a48b00bfa79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:29 +0000
Subject: [PATCH 18/18] fix: reading a string took a time that grew with the
 square of its length

---
 procmon_parser/stream_helper.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/procmon_parser/stream_helper.py b/procmon_parser/stream_helper.py
index 38ba932..7ae31ed 100644
--- a/procmon_parser/stream_helper.py
+++ b/procmon_parser/stream_helper.py
@@ -47,7 +47,7 @@ def get_pvoid_reader(is_64bit):
 
 
 def read_utf16(io, size=-1):
-    raw = b""
+    raw = bytearray()
     i = 0
     while size == -1 or i < size:
         wchar = io.read(2)
@@ -64,7 +64,7 @@ def read_utf16(io, size=-1):
 def read_utf16_multisz(io, size=-1):
     i = 0
     multisz = []
-    current = b""
+    current = bytearray()
     is_word_done = False
     while size == -1 or i < size:
         wchar = io.read(2)
@@ -74,7 +74,7 @@ def read_utf16_multisz(io, size=-1):
                 break
             is_word_done = True
             multisz.append(current.decode("UTF-16le", "replace"))
-            current = b""
+            current = bytearray()
         else:
             is_word_done = False
             current += wchar
-- 
2.43.0

