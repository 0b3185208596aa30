From 1216685c642cc8b62448b146e69c280b9b7b5c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:23 +0000
Subject: [PATCH 01/18] fix: exports replace the target file atomically

XML and CSV exports truncated the target and wrote in place, so a crash, a full
disk or an interrupt during an export over an existing file destroyed the
previous document, and a concurrent reader saw a partial one. Write to a
temporary file in the same directory and move it over the target.
---
 bpmn_python/bpmn_diagram_export.py     |  7 +++-
 bpmn_python/bpmn_export_utils.py       | 56 ++++++++++++++++++++++++++
 bpmn_python/bpmn_process_csv_export.py | 12 ++++--
 3 files changed, 69 insertions(+), 6 deletions(-)
 create mode 100644 bpmn_python/bpmn_export_utils.py

diff --git a/bpmn_python/bpmn_diagram_export.py b/bpmn_python/bpmn_diagram_export.py
index ad2952a..843d71e 100644
--- a/bpmn_python/bpmn_diagram_export.py
+++ b/bpmn_python/bpmn_diagram_export.py
@@ -6,6 +6,7 @@ import errno
 import os
 import xml.etree.cElementTree as eTree
 
+import bpmn_python.bpmn_export_utils as export_utils
 import bpmn_python.bpmn_python_consts as consts
 
 
@@ -511,7 +512,8 @@ class BpmnDiagramGraphExport(object):
         except OSError as exception:
             if exception.errno != errno.EEXIST:
                 raise
-        tree.write(directory + filename, encoding='utf-8', xml_declaration=True)
+        export_utils.BpmnExportUtils.replace_file(
+            directory + filename, lambda path: tree.write(path, encoding='utf-8', xml_declaration=True))
 
     @staticmethod
     def export_xml_file_no_di(directory, filename, bpmn_diagram):
@@ -550,7 +552,8 @@ class BpmnDiagramGraphExport(object):
         except OSError as exception:
             if exception.errno != errno.EEXIST:
                 raise
-        tree.write(directory + filename, encoding='utf-8', xml_declaration=True)
+        export_utils.BpmnExportUtils.replace_file(
+            directory + filename, lambda path: tree.write(path, encoding='utf-8', xml_declaration=True))
 
     # Helper methods
     @staticmethod
diff --git a/bpmn_python/bpmn_export_utils.py b/bpmn_python/bpmn_export_utils.py
new file mode 100644
index 0000000..bc5e179
--- /dev/null
+++ b/bpmn_python/bpmn_export_utils.py
@@ -0,0 +1,56 @@
+# coding=utf-8
+"""
+Class including utility method used in diagram exporting
+"""
+import errno
+import os
+import stat
+import uuid
+
+
+class BpmnExportUtils(object):
+    """
+    Class including utility method used in diagram exporting
+    """
+
+    def __init__(self):
+        pass
+
+    @staticmethod
+    def replace_file(filepath, write_content):
+        """
+        Writes a file so that at any moment the given path holds either its previous or its complete new content.
+        The content is written to a temporary file in the same directory, which then replaces the target file.
+        If anything fails, the temporary file is removed and the target file is left as it was.
+
+        :param filepath: string representing a path of the written file,
+        :param write_content: function that writes the content to a file, path of which is passed as its only argument.
+        """
+        target = os.path.realpath(filepath)
+        try:
+            target_mode = os.stat(target).st_mode
+        except OSError as exception:
+            if exception.errno != errno.ENOENT:
+                raise
+            target_mode = None
+        if target_mode is not None:
+            if not stat.S_ISREG(target_mode):
+                # e.g. a pipe or a device, cannot be replaced
+                write_content(filepath)
+                return
+            # do not replace a file that cannot be written
+            open(target, "r+b").close()
+
+        tmp_path = os.path.join(os.path.dirname(target), ".bpmn-" + uuid.uuid4().hex + ".tmp")
+        try:
+            write_content(tmp_path)
+            if target_mode is not None:
+                os.chmod(tmp_path, stat.S_IMODE(target_mode))
+            # os.replace is not available in Python 2
+            getattr(os, "replace", os.rename)(tmp_path, target)
+        except BaseException:
+            try:
+                os.remove(tmp_path)
+            except OSError:
+                pass
+            raise
diff --git a/bpmn_python/bpmn_process_csv_export.py b/bpmn_python/bpmn_process_csv_export.py
index 47d71f1..14b0c72 100644
--- a/bpmn_python/bpmn_process_csv_export.py
+++ b/bpmn_python/bpmn_process_csv_export.py
@@ -12,6 +12,7 @@ import string
 
 import bpmn_python.bpmn_python_consts as consts
 import bpmn_python.bpmn_diagram_exception as bpmn_exception
+import bpmn_python.bpmn_export_utils as export_utils
 import bpmn_python.bpmn_import_utils as utils
 
 
@@ -69,10 +70,13 @@ class BpmnDiagramGraphCsvExport(object):
         except OSError as exception:
             if exception.errno != errno.EEXIST:
                 raise
-        file_object = open(directory + filename, "w")
-        file_object.write("Order,Activity,Condition,Who,Subprocess,Terminated\n")
-        BpmnDiagramGraphCsvExport.write_export_node_to_file(file_object, export_elements)
-        file_object.close()
+
+        def write_content(path):
+            with open(path, "w") as file_object:
+                file_object.write("Order,Activity,Condition,Who,Subprocess,Terminated\n")
+                BpmnDiagramGraphCsvExport.write_export_node_to_file(file_object, export_elements)
+
+        export_utils.BpmnExportUtils.replace_file(directory + filename, write_content)
 
     @staticmethod
     def export_node(bpmn_graph, export_elements, node, nodes_classification, order=0, prefix="", condition="", who="",
-- 
2.43.0


From 3baf2be221b08a00bb5f3ab794c875b4c511fc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:23 +0000
Subject: [PATCH 02/18] fix: export the name of a process

The name given to a process (or loaded from a file) was lost by an XML export.
---
 bpmn_python/bpmn_diagram_export.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bpmn_python/bpmn_diagram_export.py b/bpmn_python/bpmn_diagram_export.py
index 843d71e..ce03ba1 100644
--- a/bpmn_python/bpmn_diagram_export.py
+++ b/bpmn_python/bpmn_diagram_export.py
@@ -225,6 +225,8 @@ class BpmnDiagramGraphExport(object):
         process.set(consts.Consts.is_closed, process_attributes_dictionary[consts.Consts.is_closed])
         process.set(consts.Consts.is_executable, process_attributes_dictionary[consts.Consts.is_executable])
         process.set(consts.Consts.process_type, process_attributes_dictionary[consts.Consts.process_type])
+        if process_attributes_dictionary.get(consts.Consts.name):
+            process.set(consts.Consts.name, process_attributes_dictionary[consts.Consts.name])
 
         return process
 
-- 
2.43.0


From 9b261d38a10ab88c9c5833d136e91d83df63fb9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:23 +0000
Subject: [PATCH 03/18] fix: export nested lanes as childLaneSet

They were written as laneSet, which the import (and BPMN 2.0) does not accept inside a
lane, so nested lanes were lost when the exported file was loaded.
---
 bpmn_python/bpmn_diagram_export.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bpmn_python/bpmn_diagram_export.py b/bpmn_python/bpmn_diagram_export.py
index ce03ba1..be23cb6 100644
--- a/bpmn_python/bpmn_diagram_export.py
+++ b/bpmn_python/bpmn_diagram_export.py
@@ -252,7 +252,7 @@ class BpmnDiagramGraphExport(object):
         :param child_lane_set: dictionary with exported 'childLaneSet' element attributes and child elements,
         :param plane_element: XML object, representing 'plane' element of exported BPMN 2.0 XML.
         """
-        lane_set_xml = eTree.SubElement(parent_xml_element, consts.Consts.lane_set)
+        lane_set_xml = eTree.SubElement(parent_xml_element, consts.Consts.child_lane_set)
         for key, value in child_lane_set[consts.Consts.lanes].items():
             BpmnDiagramGraphExport.export_lane(lane_set_xml, key, value, plane_element)
 
-- 
2.43.0


From 63c76cfeb401dd93841f288c1697073879b4d4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:23 +0000
Subject: [PATCH 04/18] fix: export the identifiers of laneSet and childLaneSet

They are read by the import but were not written by the export.
---
 bpmn_python/bpmn_diagram_export.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bpmn_python/bpmn_diagram_export.py b/bpmn_python/bpmn_diagram_export.py
index be23cb6..098435d 100644
--- a/bpmn_python/bpmn_diagram_export.py
+++ b/bpmn_python/bpmn_diagram_export.py
@@ -240,6 +240,8 @@ class BpmnDiagramGraphExport(object):
         :param plane_element: XML object, representing 'plane' element of exported BPMN 2.0 XML.
         """
         lane_set_xml = eTree.SubElement(process, consts.Consts.lane_set)
+        if lane_set.get(consts.Consts.id):
+            lane_set_xml.set(consts.Consts.id, lane_set[consts.Consts.id])
         for key, value in lane_set[consts.Consts.lanes].items():
             BpmnDiagramGraphExport.export_lane(lane_set_xml, key, value, plane_element)
 
@@ -253,6 +255,8 @@ class BpmnDiagramGraphExport(object):
         :param plane_element: XML object, representing 'plane' element of exported BPMN 2.0 XML.
         """
         lane_set_xml = eTree.SubElement(parent_xml_element, consts.Consts.child_lane_set)
+        if child_lane_set.get(consts.Consts.id):
+            lane_set_xml.set(consts.Consts.id, child_lane_set[consts.Consts.id])
         for key, value in child_lane_set[consts.Consts.lanes].items():
             BpmnDiagramGraphExport.export_lane(lane_set_xml, key, value, plane_element)
 
-- 
2.43.0


From 5a049c7c73fcbfa1e11c6a4e9f7effd4c00ba2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:23 +0000
Subject: [PATCH 05/18] fix: keep the name of a conditional sequence flow on
 export

The flow's own name was overwritten with its condition. Use the condition as a label only
when the flow has no name.
---
 bpmn_python/bpmn_diagram_export.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bpmn_python/bpmn_diagram_export.py b/bpmn_python/bpmn_diagram_export.py
index 098435d..f9c36cf 100644
--- a/bpmn_python/bpmn_diagram_export.py
+++ b/bpmn_python/bpmn_diagram_export.py
@@ -401,7 +401,8 @@ class BpmnDiagramGraphExport(object):
             condition_expression.set(consts.Consts.id, condition_expression_params[consts.Consts.id])
             condition_expression.set(consts.Consts.id, condition_expression_params[consts.Consts.id])
             condition_expression.text = condition_expression_params[consts.Consts.condition_expression]
-            output_flow.set(consts.Consts.name, condition_expression_params[consts.Consts.condition_expression])
+            if not params[consts.Consts.name]:
+                output_flow.set(consts.Consts.name, condition_expression_params[consts.Consts.condition_expression])
 
     @staticmethod
     def export_flow_di_data(params, plane):
-- 
2.43.0


From 4739909d9b3be4f3af99d09bc2b9bf53eeb6a889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:23 +0000
Subject: [PATCH 06/18] fix: export shapes of participants and edges of message
 flows once

They were written twice under the same identifier; the second shape of a black-box
participant has no isHorizontal, so that attribute was lost when the file was loaded.
---
 bpmn_python/bpmn_diagram_export.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bpmn_python/bpmn_diagram_export.py b/bpmn_python/bpmn_diagram_export.py
index f9c36cf..c83a265 100644
--- a/bpmn_python/bpmn_diagram_export.py
+++ b/bpmn_python/bpmn_diagram_export.py
@@ -505,12 +505,16 @@ class BpmnDiagramGraphExport(object):
         for node in nodes:
             node_id = node[0]
             params = node[1]
-            BpmnDiagramGraphExport.export_node_di_data(node_id, params, plane)
+            # shapes of participants are exported with the collaboration
+            if params[consts.Consts.type] != consts.Consts.participant:
+                BpmnDiagramGraphExport.export_node_di_data(node_id, params, plane)
 
         flows = bpmn_diagram.get_flows()
         for flow in flows:
             params = flow[2]
-            BpmnDiagramGraphExport.export_flow_di_data(params, plane)
+            # edges of message flows are exported with the collaboration
+            if params[consts.Consts.id] in bpmn_diagram.sequence_flows:
+                BpmnDiagramGraphExport.export_flow_di_data(params, plane)
 
         BpmnDiagramGraphExport.indent(definitions)
         tree = eTree.ElementTree(definitions)
-- 
2.43.0


From 9556939cb4d3f61c64f1e9b7aba935aecad10dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:10 +0000
Subject: [PATCH 07/18] fix: import event definitions in document order

---
 bpmn_python/bpmn_diagram_import.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/bpmn_python/bpmn_diagram_import.py b/bpmn_python/bpmn_diagram_import.py
index d5ddcca..245d4c5 100644
--- a/bpmn_python/bpmn_diagram_import.py
+++ b/bpmn_python/bpmn_diagram_import.py
@@ -571,12 +571,12 @@ class BpmnDiagramGraphImport(object):
         """
         element_id = element.getAttribute(consts.Consts.id)
         event_def_list = []
-        for definition_type in event_definitions:
-            event_def_xml = element.getElementsByTagNameNS("*", definition_type)
-            for index in range(len(event_def_xml)):
+        # document order, iterating over a set of definition types would make the order depend on the hash seed
+        for event_def_xml in element.getElementsByTagNameNS("*", "*"):
+            if event_def_xml.localName in event_definitions:
                 # tuple - definition type, definition id
-                event_def_tmp = {consts.Consts.id: event_def_xml[index].getAttribute(consts.Consts.id),
-                                 consts.Consts.definition_type: definition_type}
+                event_def_tmp = {consts.Consts.id: event_def_xml.getAttribute(consts.Consts.id),
+                                 consts.Consts.definition_type: event_def_xml.localName}
                 event_def_list.append(event_def_tmp)
         diagram_graph.node[element_id][consts.Consts.event_definitions] = event_def_list
 
-- 
2.43.0


From 95fcb248700f4744ccc4dd35ceffff91e2995c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:13 +0000
Subject: [PATCH 08/18] fix: export CSV files in UTF-8 whatever the locale

---
 bpmn_python/bpmn_process_csv_export.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bpmn_python/bpmn_process_csv_export.py b/bpmn_python/bpmn_process_csv_export.py
index 14b0c72..7690e5e 100644
--- a/bpmn_python/bpmn_process_csv_export.py
+++ b/bpmn_python/bpmn_process_csv_export.py
@@ -7,6 +7,7 @@ from __future__ import print_function
 
 import copy
 import errno
+import io
 import os
 import string
 
@@ -72,8 +73,8 @@ class BpmnDiagramGraphCsvExport(object):
                 raise
 
         def write_content(path):
-            with open(path, "w") as file_object:
-                file_object.write("Order,Activity,Condition,Who,Subprocess,Terminated\n")
+            with io.open(path, "w", encoding="utf-8", newline="\n") as file_object:
+                file_object.write(u"Order,Activity,Condition,Who,Subprocess,Terminated\n")
                 BpmnDiagramGraphCsvExport.write_export_node_to_file(file_object, export_elements)
 
         export_utils.BpmnExportUtils.replace_file(directory + filename, write_content)
@@ -299,5 +300,5 @@ class BpmnDiagramGraphCsvExport(object):
         for export_element in export_elements:
             # Order,Activity,Condition,Who,Subprocess,Terminated
             file_object.write(
-                export_element["Order"] + "," + export_element["Activity"] + "," + export_element["Condition"] + "," +
+                export_element["Order"] + u"," + export_element["Activity"] + "," + export_element["Condition"] + "," +
                 export_element["Who"] + "," + export_element["Subprocess"] + "," + export_element["Terminated"] + "\n")
-- 
2.43.0


From a74850e705c8e80dc83c4c1c4160ff7fb04501f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:17 +0000
Subject: [PATCH 09/18] fix: quote fields of exported CSV files

---
 bpmn_python/bpmn_process_csv_export.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/bpmn_python/bpmn_process_csv_export.py b/bpmn_python/bpmn_process_csv_export.py
index 7690e5e..0606396 100644
--- a/bpmn_python/bpmn_process_csv_export.py
+++ b/bpmn_python/bpmn_process_csv_export.py
@@ -299,6 +299,17 @@ class BpmnDiagramGraphCsvExport(object):
         """
         for export_element in export_elements:
             # Order,Activity,Condition,Who,Subprocess,Terminated
-            file_object.write(
-                export_element["Order"] + u"," + export_element["Activity"] + "," + export_element["Condition"] + "," +
-                export_element["Who"] + "," + export_element["Subprocess"] + "," + export_element["Terminated"] + "\n")
+            file_object.write(u",".join(
+                BpmnDiagramGraphCsvExport.quote_csv_field(export_element[column])
+                for column in ("Order", "Activity", "Condition", "Who", "Subprocess", "Terminated")) + u"\n")
+
+    @staticmethod
+    def quote_csv_field(value):
+        """
+        Helper function, quotes a field that contains characters with a special meaning in CSV format.
+
+        :param value: string object. Value of the field.
+        """
+        if any(char in value for char in u",\"\r\n") or value != value.strip():
+            return u'"' + value.replace(u'"', u'""') + u'"'
+        return value
-- 
2.43.0


From 45b53ab07fc58115c2326e7a489b53a8003f745a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:21 +0000
Subject: [PATCH 10/18] fix: import CSV fields as the text they are

---
 bpmn_python/bpmn_process_csv_import.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bpmn_python/bpmn_process_csv_import.py b/bpmn_python/bpmn_process_csv_import.py
index 82e3e63..bd710ce 100644
--- a/bpmn_python/bpmn_process_csv_import.py
+++ b/bpmn_python/bpmn_process_csv_import.py
@@ -609,7 +609,7 @@ class BpmnDiagramGraphCSVImport(object):
         :param filepath:
         :return:
         """
-        process_dict = pd.read_csv(filepath, index_col=0).fillna("").to_dict('index')
+        process_dict = pd.read_csv(filepath, index_col=0, dtype=str, keep_default_na=False).to_dict('index')
         remove_white_spaces_in_orders(process_dict)
         return process_dict
 
-- 
2.43.0


From f77200c114e397ff51ae49a58e763b7328662782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:25 +0000
Subject: [PATCH 11/18] fix: keep the name of an end event imported from CSV

---
 bpmn_python/bpmn_process_csv_import.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bpmn_python/bpmn_process_csv_import.py b/bpmn_python/bpmn_process_csv_import.py
index bd710ce..d5771c3 100644
--- a/bpmn_python/bpmn_process_csv_import.py
+++ b/bpmn_python/bpmn_process_csv_import.py
@@ -56,7 +56,7 @@ def add_node_info_to_diagram_graph(order, node_type, activity, process_id, bpmn_
     elif node_type == consts.Consts.subprocess:
         bpmn_diagram.add_subprocess_to_diagram(process_id, subprocess_name=activity, node_id=order)
     elif node_type == consts.Consts.end_event:
-        bpmn_diagram.add_end_event_to_diagram(process_id, node_id=order)
+        bpmn_diagram.add_end_event_to_diagram(process_id, end_event_name=activity, node_id=order)
     elif node_type == consts.Consts.inclusive_gateway:
         bpmn_diagram.add_inclusive_gateway_to_diagram(process_id, node_id=order)
     elif node_type == consts.Consts.exclusive_gateway:
-- 
2.43.0


From f7fa05f5d7acaf93fe273ef6439cd10a81c69d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:49 +0000
Subject: [PATCH 12/18] fix: export the condition of an unnamed flow to CSV

---
 bpmn_python/bpmn_process_csv_export.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bpmn_python/bpmn_process_csv_export.py b/bpmn_python/bpmn_process_csv_export.py
index 0606396..cce5ad5 100644
--- a/bpmn_python/bpmn_process_csv_export.py
+++ b/bpmn_python/bpmn_process_csv_export.py
@@ -174,6 +174,9 @@ class BpmnDiagramGraphCsvExport(object):
                 if node_type != consts.Consts.parallel_gateway and consts.Consts.name in outgoing_flow[2] \
                         and outgoing_flow[2][consts.Consts.name] is not None:
                     condition = outgoing_flow[2][consts.Consts.name]
+                    if not condition and consts.Consts.condition_expression in outgoing_flow[2]:
+                        condition = outgoing_flow[2][consts.Consts.condition_expression][
+                            consts.Consts.condition_expression]
                 else:
                     condition = ""
 
-- 
2.43.0


From 6c67d3828a417d8f2f0eb561f3308a3bf6aed171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:52 +0000
Subject: [PATCH 13/18] fix: do not add a gateway with an invalid direction

---
 bpmn_python/bpmn_diagram_rep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bpmn_python/bpmn_diagram_rep.py b/bpmn_python/bpmn_diagram_rep.py
index c2a0cfe..e7be201 100644
--- a/bpmn_python/bpmn_diagram_rep.py
+++ b/bpmn_python/bpmn_diagram_rep.py
@@ -427,10 +427,10 @@ class BpmnDiagramGraph(object):
 
         :return: a tuple, where first value is gateway ID, second a reference to created object.
         """
-        gateway_id, gateway = self.add_flow_node_to_diagram(process_id, gateway_type, gateway_name, node_id)
         if not (gateway_direction in ("Unspecified", "Converging", "Diverging", "Mixed")):
             raise bpmn_exception.BpmnPythonError("Invalid value passed as gatewayDirection parameter. Value passed: "
                                                  + gateway_direction)
+        gateway_id, gateway = self.add_flow_node_to_diagram(process_id, gateway_type, gateway_name, node_id)
         self.diagram_graph.node[gateway_id][consts.Consts.gateway_direction] = gateway_direction
         return gateway_id, gateway
 
-- 
2.43.0


From 12970e937e779583220888c5cca4e727bbe51535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:56 +0000
Subject: [PATCH 14/18] fix: do not add a flow between nodes that do not exist

---
 bpmn_python/bpmn_diagram_rep.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bpmn_python/bpmn_diagram_rep.py b/bpmn_python/bpmn_diagram_rep.py
index e7be201..45357b0 100644
--- a/bpmn_python/bpmn_diagram_rep.py
+++ b/bpmn_python/bpmn_diagram_rep.py
@@ -512,6 +512,9 @@ class BpmnDiagramGraph(object):
         :param sequence_flow_name: string object. Name of sequence flow.
         :return: a tuple, where first value is sequenceFlow ID, second a reference to created object.
         """
+        # raises KeyError before anything is changed, if one of the nodes does not exist
+        source_node = self.diagram_graph.node[source_ref_id]
+        target_node = self.diagram_graph.node[target_ref_id]
         sequence_flow_id = BpmnDiagramGraph.id_prefix + str(uuid.uuid4())
         self.sequence_flows[sequence_flow_id] = {consts.Consts.name: sequence_flow_name,
                                                  consts.Consts.source_ref: source_ref_id,
@@ -523,8 +526,6 @@ class BpmnDiagramGraph(object):
         flow[consts.Consts.process] = process_id
         flow[consts.Consts.source_ref] = source_ref_id
         flow[consts.Consts.target_ref] = target_ref_id
-        source_node = self.diagram_graph.node[source_ref_id]
-        target_node = self.diagram_graph.node[target_ref_id]
         flow[consts.Consts.waypoints] = \
             [(source_node[consts.Consts.x], source_node[consts.Consts.y]),
              (target_node[consts.Consts.x], target_node[consts.Consts.y])]
-- 
2.43.0


From 193f2810a8a2efeab4d17cdc148514c11c2d2e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:59 +0000
Subject: [PATCH 15/18] fix: a layout that fails does not move nodes

---
 bpmn_python/bpmn_diagram_layouter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bpmn_python/bpmn_diagram_layouter.py b/bpmn_python/bpmn_diagram_layouter.py
index b13771b..0d3ecb9 100644
--- a/bpmn_python/bpmn_diagram_layouter.py
+++ b/bpmn_python/bpmn_diagram_layouter.py
@@ -381,8 +381,9 @@ def set_coordinates_for_nodes(bpmn_graph, grid):
     """
 
     nodes = bpmn_graph.get_nodes()
-    for node in nodes:
-        cell = next(grid_cell for grid_cell in grid if grid_cell.node_id == node[0])
+    # find all cells first, so that no node is moved if some other node could not be placed in grid
+    cells = [next(grid_cell for grid_cell in grid if grid_cell.node_id == node[0]) for node in nodes]
+    for node, cell in zip(nodes, cells):
         node[1][consts.Consts.x] = str(cell.col * 150 + 50)
         node[1][consts.Consts.y] = str(cell.row * 100 + 50)
 
-- 
2.43.0


From c6bc8884552baaf356c100fcaa81d75fd68b8e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:39 +0000
Subject: [PATCH 16/18] fix: export without DI writes each element once, in its
 own process

---
 bpmn_python/bpmn_diagram_export.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/bpmn_python/bpmn_diagram_export.py b/bpmn_python/bpmn_diagram_export.py
index c83a265..076de07 100644
--- a/bpmn_python/bpmn_diagram_export.py
+++ b/bpmn_python/bpmn_diagram_export.py
@@ -535,7 +535,6 @@ class BpmnDiagramGraphExport(object):
         :param filename: string representing output file name,
         :param bpmn_diagram: BPMNDiagramGraph class instance representing a BPMN process diagram.
         """
-        diagram_graph = bpmn_diagram.diagram_graph
         process_elements_dict = bpmn_diagram.process_elements
         definitions = BpmnDiagramGraphExport.export_definitions_element()
 
@@ -544,14 +543,14 @@ class BpmnDiagramGraphExport(object):
             process = BpmnDiagramGraphExport.export_process_element(definitions, process_id, process_element_attr)
 
             # for each node in graph add correct type of element, its attributes and BPMNShape element
-            nodes = diagram_graph.nodes(data=True)
+            nodes = bpmn_diagram.get_nodes_list_by_process_id(process_id)
             for node in nodes:
                 node_id = node[0]
                 params = node[1]
                 BpmnDiagramGraphExport.export_node_data(bpmn_diagram, node_id, params, process)
 
             # for each edge in graph add sequence flow element, its attributes and BPMNEdge element
-            flows = diagram_graph.edges(data=True)
+            flows = bpmn_diagram.get_flows_list_by_process_id(process_id)
             for flow in flows:
                 params = flow[2]
                 BpmnDiagramGraphExport.export_flow_process_data(params, process)
-- 
2.43.0


From 94fd69d3c2c2fc496d54e54bc8002729d7f83e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:42 +0000
Subject: [PATCH 17/18] fix: import sequence flows with an empty condition

---
 bpmn_python/bpmn_diagram_import.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bpmn_python/bpmn_diagram_import.py b/bpmn_python/bpmn_diagram_import.py
index 245d4c5..9be38e1 100644
--- a/bpmn_python/bpmn_diagram_import.py
+++ b/bpmn_python/bpmn_diagram_import.py
@@ -738,7 +738,8 @@ class BpmnDiagramGraphImport(object):
             if element.nodeType != element.TEXT_NODE:
                 tag_name = utils.BpmnImportUtils.remove_namespace_from_tag_name(element.tagName)
                 if tag_name == consts.Consts.condition_expression:
-                    condition_expression = element.firstChild.nodeValue
+                    # firstChild is None, if condition is empty
+                    condition_expression = element.firstChild.nodeValue if element.firstChild is not None else ""
                     diagram_graph[source_ref][target_ref][consts.Consts.condition_expression] = {
                         consts.Consts.id: element.getAttribute(consts.Consts.id),
                         consts.Consts.condition_expression: condition_expression
-- 
2.43.0


From b29cbf34d95b917d99d86184453246f73fcc8503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:36 +0000
Subject: [PATCH 18/18] fix: the eleventh step of a CSV branch is not the start
 of a branch

---
 bpmn_python/bpmn_process_csv_import.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bpmn_python/bpmn_process_csv_import.py b/bpmn_python/bpmn_process_csv_import.py
index d5771c3..89f67f6 100644
--- a/bpmn_python/bpmn_process_csv_import.py
+++ b/bpmn_python/bpmn_process_csv_import.py
@@ -19,7 +19,7 @@ regex_pa_trailing_letter = r'(.+)([a-z|A-Z])'
 regex_pa_merge_node_finder = r'(.*?)([0-9]+[a-z|A-Z])(.*?)'
 regex_pa_num_let = r'([0-9]+)([a-z,A-Z])'
 regex_prefix_split_succ = r'^'
-regex_suffix_split_succ = r'([a-z|A-Z]|[a-z|A-Z][1]+)$'
+regex_suffix_split_succ = r'([a-z|A-Z]|[a-z|A-Z]1)$'
 
 default_process_id = 'process_1'
 default_plane_id = 'plane_1'
-- 
2.43.0

