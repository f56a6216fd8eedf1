From 77ad7a6e9926d815d613eb60715e9cb3ca656853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:49 +0000
Subject: [PATCH 01/40] fix: validate gateway direction before adding the
 gateway to the diagram

---
 bpmn_python/bpmn_diagram_rep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bpmn_python/bpmn_diagram_rep.py b/bpmn_python/bpmn_diagram_rep.py
index c2a0cfe..e7be201 100644
--- a/bpmn_python/bpmn_diagram_rep.py
+++ b/bpmn_python/bpmn_diagram_rep.py
@@ -427,10 +427,10 @@ class BpmnDiagramGraph(object):
 
         :return: a tuple, where first value is gateway ID, second a reference to created object.
         """
-        gateway_id, gateway = self.add_flow_node_to_diagram(process_id, gateway_type, gateway_name, node_id)
         if not (gateway_direction in ("Unspecified", "Converging", "Diverging", "Mixed")):
             raise bpmn_exception.BpmnPythonError("Invalid value passed as gatewayDirection parameter. Value passed: "
                                                  + gateway_direction)
+        gateway_id, gateway = self.add_flow_node_to_diagram(process_id, gateway_type, gateway_name, node_id)
         self.diagram_graph.node[gateway_id][consts.Consts.gateway_direction] = gateway_direction
         return gateway_id, gateway
 
-- 
2.43.0


From 05e81de442fb94d29d670f3d4bfb05b9f5d2aee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:04 +0000
Subject: [PATCH 02/40] fix: look up both ends of a sequence flow before
 changing the diagram

---
 bpmn_python/bpmn_diagram_rep.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bpmn_python/bpmn_diagram_rep.py b/bpmn_python/bpmn_diagram_rep.py
index e7be201..2987d8c 100644
--- a/bpmn_python/bpmn_diagram_rep.py
+++ b/bpmn_python/bpmn_diagram_rep.py
@@ -512,6 +512,8 @@ class BpmnDiagramGraph(object):
         :param sequence_flow_name: string object. Name of sequence flow.
         :return: a tuple, where first value is sequenceFlow ID, second a reference to created object.
         """
+        source_node = self.diagram_graph.node[source_ref_id]
+        target_node = self.diagram_graph.node[target_ref_id]
         sequence_flow_id = BpmnDiagramGraph.id_prefix + str(uuid.uuid4())
         self.sequence_flows[sequence_flow_id] = {consts.Consts.name: sequence_flow_name,
                                                  consts.Consts.source_ref: source_ref_id,
@@ -523,8 +525,6 @@ class BpmnDiagramGraph(object):
         flow[consts.Consts.process] = process_id
         flow[consts.Consts.source_ref] = source_ref_id
         flow[consts.Consts.target_ref] = target_ref_id
-        source_node = self.diagram_graph.node[source_ref_id]
-        target_node = self.diagram_graph.node[target_ref_id]
         flow[consts.Consts.waypoints] = \
             [(source_node[consts.Consts.x], source_node[consts.Consts.y]),
              (target_node[consts.Consts.x], target_node[consts.Consts.y])]
-- 
2.43.0


From 1d85db33dbd7f1ea066dc23ca1821dc4a46946c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:10 +0000
Subject: [PATCH 03/40] fix: count all nodes when get_nodes_count is called
 without a type

---
 bpmn_python/bpmn_diagram_metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bpmn_python/bpmn_diagram_metrics.py b/bpmn_python/bpmn_diagram_metrics.py
index 2d460b8..7b669cc 100644
--- a/bpmn_python/bpmn_diagram_metrics.py
+++ b/bpmn_python/bpmn_diagram_metrics.py
@@ -12,7 +12,7 @@ GATEWAY_TYPES = ['inclusiveGateway', 'exclusiveGateway', 'parallelGateway', 'eve
 EVENT_TYPES = ['startEvent', 'endEvent', 'intermediateCatchEvent', 'intermediateThrowEvent']
 
 
-def get_nodes_count(bpmn_graph, node_type=None):
+def get_nodes_count(bpmn_graph, node_type=""):
     """
     Gets the count of nodes of the requested type.
     If no type is provided,
-- 
2.43.0


From 24729447e1d3fa5de9bf9c3619af855c1247bbf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:14 +0000
Subject: [PATCH 04/40] fix: shift grid rows by the grid step instead of the
 width attribute name

---
 bpmn_python/bpmn_diagram_layouter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bpmn_python/bpmn_diagram_layouter.py b/bpmn_python/bpmn_diagram_layouter.py
index b13771b..be0932e 100644
--- a/bpmn_python/bpmn_diagram_layouter.py
+++ b/bpmn_python/bpmn_diagram_layouter.py
@@ -369,7 +369,7 @@ def insert_into_grid(grid, row, col, node_id):
     if occupied_cell:
         for grid_cell in grid:
             if grid_cell.row >= row:
-                grid_cell.row += consts.Consts.width
+                grid_cell.row += consts.Consts.grid_column_width
     grid.append(cell_class.GridCell(row, col, node_id))
 
 
-- 
2.43.0


From f415644286782fcf8af3dde9f535ee109dc06d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:40 +0000
Subject: [PATCH 05/40] fix: do not place the same successor of a split twice
 during layout

---
 bpmn_python/bpmn_diagram_layouter.py | 50 +++++++++++++++++-----------
 1 file changed, 31 insertions(+), 19 deletions(-)

diff --git a/bpmn_python/bpmn_diagram_layouter.py b/bpmn_python/bpmn_diagram_layouter.py
index be0932e..7f67b06 100644
--- a/bpmn_python/bpmn_diagram_layouter.py
+++ b/bpmn_python/bpmn_diagram_layouter.py
@@ -300,9 +300,10 @@ def place_element_in_grid(node_with_classification, grid, last_row, last_col, bp
         for flow_id in outgoing_flows:
             flow = bpmn_graph.get_flow_by_id(flow_id)
             successors_id_list.append(flow[2][consts.Consts.target_ref])
-        num_of_successors = len(successors_id_list)
+        # successors which are already placed in grid (e.g. targets of backward flows) are not placed again
         successor_node_list = [successor_node for successor_node in nodes_with_classification
                                       if successor_node[node_param_name][0] in successors_id_list]
+        num_of_successors = len(successor_node_list)
 
         if num_of_successors % 2 != 0:
             # if number of successors is even, put one half over the split, second half below
@@ -311,42 +312,53 @@ def place_element_in_grid(node_with_classification, grid, last_row, last_col, bp
             for index in range(0, centre):
                 # place element above split
                 successor_node = successor_node_list[index]
-                (grid, last_row, last_col) = place_element_in_grid(successor_node, grid, last_row, last_col,
-                                                                   bpmn_graph,nodes_with_classification, current_element_row + ((index + 1) * consts.Consts.grid_column_width))
-
-                nodes_with_classification.remove(successor_node)
+                (grid, last_row, last_col) = place_successor_in_grid(successor_node, grid, last_row, last_col,
+                                                                     bpmn_graph, nodes_with_classification, current_element_row + ((index + 1) * consts.Consts.grid_column_width))
 
             successor_node = successor_node_list[centre]
-            (grid, last_row, last_col) = place_element_in_grid(successor_node, grid, last_row, last_col,
-                                                               bpmn_graph,nodes_with_classification, current_element_row)
-            nodes_with_classification.remove(successor_node)
+            (grid, last_row, last_col) = place_successor_in_grid(successor_node, grid, last_row, last_col,
+                                                                 bpmn_graph, nodes_with_classification, current_element_row)
             for index in range(centre + 1, num_of_successors):
                 # place element below split
                 successor_node = successor_node_list[index]
-                (grid, last_row, last_col) = place_element_in_grid(successor_node, grid, last_row, last_col,
-                                                                   bpmn_graph,nodes_with_classification, current_element_row - ((index - centre) * consts.Consts.grid_column_width))
-
-                nodes_with_classification.remove(successor_node)
+                (grid, last_row, last_col) = place_successor_in_grid(successor_node, grid, last_row, last_col,
+                                                                     bpmn_graph, nodes_with_classification, current_element_row - ((index - centre) * consts.Consts.grid_column_width))
         else:
             centre = (num_of_successors // 2)
             for index in range(0, centre):
                 # place element above split
                 successor_node = successor_node_list[index]
-                (grid, last_row, last_col) = place_element_in_grid(successor_node, grid, last_row, last_col,
-                                                                   bpmn_graph,nodes_with_classification, current_element_row + (index + 1) * consts.Consts.grid_column_width)
-
-                nodes_with_classification.remove(successor_node)
+                (grid, last_row, last_col) = place_successor_in_grid(successor_node, grid, last_row, last_col,
+                                                                     bpmn_graph, nodes_with_classification, current_element_row + (index + 1) * consts.Consts.grid_column_width)
 
 
             for index in range(centre, num_of_successors):
                 # place element below split
                 successor_node = successor_node_list[index]
-                (grid, last_row, last_col) = place_element_in_grid(successor_node, grid, last_row, last_col,
-                                                                   bpmn_graph,nodes_with_classification, current_element_row - ((index - centre + 1) * consts.Consts.grid_column_width))
+                (grid, last_row, last_col) = place_successor_in_grid(successor_node, grid, last_row, last_col,
+                                                                     bpmn_graph, nodes_with_classification, current_element_row - ((index - centre + 1) * consts.Consts.grid_column_width))
 
-                nodes_with_classification.remove(successor_node)
 
+    return grid, last_row, last_col
+
+
+def place_successor_in_grid(successor_node, grid, last_row, last_col, bpmn_graph, nodes_with_classification, row_num):
+    """
+    Places a successor of a split in given row, unless it was already placed while processing its other predecessor.
 
+    :param successor_node:
+    :param grid:
+    :param last_row:
+    :param last_col:
+    :param bpmn_graph:
+    :param nodes_with_classification:
+    :param row_num:
+    :return:
+    """
+    if successor_node in nodes_with_classification:
+        nodes_with_classification.remove(successor_node)
+        (grid, last_row, last_col) = place_element_in_grid(successor_node, grid, last_row, last_col, bpmn_graph,
+                                                           nodes_with_classification, row_num)
     return grid, last_row, last_col
 
 
-- 
2.43.0


From 9e44f925c2391ef65091f7cf084eba12460fb69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:44 +0000
Subject: [PATCH 06/40] fix: let layout break loops that no flow enters

---
 bpmn_python/bpmn_diagram_layouter.py | 33 +++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/bpmn_python/bpmn_diagram_layouter.py b/bpmn_python/bpmn_diagram_layouter.py
index 7f67b06..1850cb4 100644
--- a/bpmn_python/bpmn_diagram_layouter.py
+++ b/bpmn_python/bpmn_diagram_layouter.py
@@ -186,8 +186,13 @@ def topological_sort(bpmn_graph, nodes_with_classification):
                                   if tmp_node[node_param_name][0] == target_id)
                     target[1][consts.Consts.incoming_flow].remove(flow_id)
         else:
+            loop_entry_nodes = [tmp_node for tmp_node in tmp_nodes_with_classification
+                                if "Join" in tmp_node[classification_param_name]]
+            if len(loop_entry_nodes) == 0:
+                # only loops without any entry are left, break one of them
+                loop_entry_nodes = [find_node_on_loop(bpmn_graph, tmp_nodes_with_classification)]
             for node_with_classification in tmp_nodes_with_classification:
-                if "Join" in node_with_classification[classification_param_name]:
+                if node_with_classification in loop_entry_nodes:
                     incoming_list = list(node_with_classification[node_param_name][1][consts.Consts.incoming_flow])
                     tmp_incoming_list = list(incoming_list)
                     for flow_id in tmp_incoming_list:
@@ -210,6 +215,25 @@ def topological_sort(bpmn_graph, nodes_with_classification):
     return sorted_nodes_with_classification, backward_flows
 
 
+def find_node_on_loop(bpmn_graph, nodes_with_classification):
+    """
+    Follows the flows backward until a node is met again. Every node has to have exactly one incoming flow.
+
+    :param bpmn_graph:
+    :param nodes_with_classification:
+    :return: a node that lies on a loop
+    """
+    node_param_name = "node"
+    node_with_classification = nodes_with_classification[0]
+    visited_ids = []
+    while node_with_classification[node_param_name][0] not in visited_ids:
+        visited_ids.append(node_with_classification[node_param_name][0])
+        flow = bpmn_graph.get_flow_by_id(node_with_classification[node_param_name][1][consts.Consts.incoming_flow][0])
+        node_with_classification = next(tmp_node for tmp_node in nodes_with_classification
+                                        if tmp_node[node_param_name][0] == flow[2][consts.Consts.source_ref])
+    return node_with_classification
+
+
 def grid_layout(bpmn_graph, sorted_nodes_with_classification):
     """
 
@@ -249,8 +273,11 @@ def place_element_in_grid(node_with_classification, grid, last_row, last_col, bp
     incoming_flows = node_with_classification[node_param_name][1][consts.Consts.incoming_flow]
     outgoing_flows = node_with_classification[node_param_name][1][consts.Consts.outgoing_flow]
 
-    if len(incoming_flows) == 0:
-        # if node has no incoming flow, put it in new row
+    placed_nodes_ids = [grid_cell.node_id for grid_cell in grid]
+    if len(incoming_flows) == 0 or \
+            ("Join" not in node_with_classification[classification_param_name] and
+             bpmn_graph.get_flow_by_id(incoming_flows[0])[2][consts.Consts.source_ref] not in placed_nodes_ids):
+        # if node has no incoming flow (or only the one that closes a loop), put it in new row
         current_element_row = last_row
         current_element_col = last_col
         if enforced_row_num:
-- 
2.43.0


From c328492f7241a39eee1e3aea545ce18dbafed17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:16 +0000
Subject: [PATCH 07/40] fix: do not count a node with a flow to itself twice in
 longest path

---
 bpmn_python/diagram_layout_metrics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bpmn_python/diagram_layout_metrics.py b/bpmn_python/diagram_layout_metrics.py
index 0b23a0b..f5bd1f7 100644
--- a/bpmn_python/diagram_layout_metrics.py
+++ b/bpmn_python/diagram_layout_metrics.py
@@ -217,7 +217,7 @@ def find_longest_path(previous_nodes, node, bpmn_graph):
         for outgoing_flow_id in outgoing_flows_list:
             flow = bpmn_graph.get_flow_by_id(outgoing_flow_id)
             outgoing_node = bpmn_graph.get_node_by_id(flow[2][consts.Consts.target_ref])
-            if outgoing_node not in previous_nodes:
+            if outgoing_node not in tmp_previous_nodes:
                 (output_path, output_path_len) = find_longest_path(tmp_previous_nodes, outgoing_node, bpmn_graph)
                 if output_path_len > len(longest_path):
                     longest_path = output_path
@@ -278,7 +278,7 @@ def find_longest_path_tasks(path, qualified_nodes, node, bpmn_graph):
             if node[1]["type"] in node_names:
                 tmp_qualified_nodes.append(node)
 
-            if outgoing_node not in path:
+            if outgoing_node not in tmp_path:
                 (path_all_nodes, path_qualified_nodes) = find_longest_path_tasks(tmp_path, tmp_qualified_nodes,
                                                                                  outgoing_node, bpmn_graph)
                 if len(path_qualified_nodes) > len(longest_qualified_nodes):
-- 
2.43.0


From 7325ef172a2ada42dbd747538c6ef7916cbee310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:20 +0000
Subject: [PATCH 08/40] fix: export the name of a process

---
 bpmn_python/bpmn_diagram_export.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bpmn_python/bpmn_diagram_export.py b/bpmn_python/bpmn_diagram_export.py
index ad2952a..9b4c37c 100644
--- a/bpmn_python/bpmn_diagram_export.py
+++ b/bpmn_python/bpmn_diagram_export.py
@@ -221,6 +221,8 @@ class BpmnDiagramGraphExport(object):
         """
         process = eTree.SubElement(definitions, consts.Consts.process)
         process.set(consts.Consts.id, process_id)
+        if process_attributes_dictionary.get(consts.Consts.name):
+            process.set(consts.Consts.name, process_attributes_dictionary[consts.Consts.name])
         process.set(consts.Consts.is_closed, process_attributes_dictionary[consts.Consts.is_closed])
         process.set(consts.Consts.is_executable, process_attributes_dictionary[consts.Consts.is_executable])
         process.set(consts.Consts.process_type, process_attributes_dictionary[consts.Consts.process_type])
-- 
2.43.0


From 39d3e69d79f8a79f843a94a5f10591c812f18d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:24 +0000
Subject: [PATCH 09/40] fix: export nested lanes as childLaneSet and keep the
 ids of lane sets

---
 bpmn_python/bpmn_diagram_export.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bpmn_python/bpmn_diagram_export.py b/bpmn_python/bpmn_diagram_export.py
index 9b4c37c..c15b095 100644
--- a/bpmn_python/bpmn_diagram_export.py
+++ b/bpmn_python/bpmn_diagram_export.py
@@ -239,6 +239,8 @@ class BpmnDiagramGraphExport(object):
         :param plane_element: XML object, representing 'plane' element of exported BPMN 2.0 XML.
         """
         lane_set_xml = eTree.SubElement(process, consts.Consts.lane_set)
+        if lane_set.get(consts.Consts.id):
+            lane_set_xml.set(consts.Consts.id, lane_set[consts.Consts.id])
         for key, value in lane_set[consts.Consts.lanes].items():
             BpmnDiagramGraphExport.export_lane(lane_set_xml, key, value, plane_element)
 
@@ -251,7 +253,9 @@ class BpmnDiagramGraphExport(object):
         :param child_lane_set: dictionary with exported 'childLaneSet' element attributes and child elements,
         :param plane_element: XML object, representing 'plane' element of exported BPMN 2.0 XML.
         """
-        lane_set_xml = eTree.SubElement(parent_xml_element, consts.Consts.lane_set)
+        lane_set_xml = eTree.SubElement(parent_xml_element, consts.Consts.child_lane_set)
+        if child_lane_set.get(consts.Consts.id):
+            lane_set_xml.set(consts.Consts.id, child_lane_set[consts.Consts.id])
         for key, value in child_lane_set[consts.Consts.lanes].items():
             BpmnDiagramGraphExport.export_lane(lane_set_xml, key, value, plane_element)
 
-- 
2.43.0


From 409499a6639705ecb00c494f4def2f6d13b88118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:29 +0000
Subject: [PATCH 10/40] fix: ignore comments and processing instructions in
 imported XML

---
 bpmn_python/bpmn_import_utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bpmn_python/bpmn_import_utils.py b/bpmn_python/bpmn_import_utils.py
index a0cd3d8..47a5b06 100644
--- a/bpmn_python/bpmn_import_utils.py
+++ b/bpmn_python/bpmn_import_utils.py
@@ -26,13 +26,15 @@ class BpmnImportUtils(object):
     @staticmethod
     def iterate_elements(parent):
         """
-        Helper function that iterates over child Nodes/Elements of parent Node/Element.
+        Helper function that iterates over child Nodes/Elements of parent Node/Element. Comments and processing
+        instructions are skipped.
 
         :param parent: object of Element class, representing parent element.
         """
         element = parent.firstChild
         while element is not None:
-            yield element
+            if element.nodeType not in (element.COMMENT_NODE, element.PROCESSING_INSTRUCTION_NODE):
+                yield element
             element = element.nextSibling
 
     @staticmethod
-- 
2.43.0


From d0432999f11410cb7218997680dda00ad0fd3740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:34 +0000
Subject: [PATCH 11/40] fix: export without layout data writes each element
 only in its own process

---
 bpmn_python/bpmn_diagram_export.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/bpmn_python/bpmn_diagram_export.py b/bpmn_python/bpmn_diagram_export.py
index c15b095..230afd2 100644
--- a/bpmn_python/bpmn_diagram_export.py
+++ b/bpmn_python/bpmn_diagram_export.py
@@ -528,7 +528,6 @@ class BpmnDiagramGraphExport(object):
         :param filename: string representing output file name,
         :param bpmn_diagram: BPMNDiagramGraph class instance representing a BPMN process diagram.
         """
-        diagram_graph = bpmn_diagram.diagram_graph
         process_elements_dict = bpmn_diagram.process_elements
         definitions = BpmnDiagramGraphExport.export_definitions_element()
 
@@ -537,14 +536,14 @@ class BpmnDiagramGraphExport(object):
             process = BpmnDiagramGraphExport.export_process_element(definitions, process_id, process_element_attr)
 
             # for each node in graph add correct type of element, its attributes and BPMNShape element
-            nodes = diagram_graph.nodes(data=True)
+            nodes = bpmn_diagram.get_nodes_list_by_process_id(process_id)
             for node in nodes:
                 node_id = node[0]
                 params = node[1]
                 BpmnDiagramGraphExport.export_node_data(bpmn_diagram, node_id, params, process)
 
             # for each edge in graph add sequence flow element, its attributes and BPMNEdge element
-            flows = diagram_graph.edges(data=True)
+            flows = bpmn_diagram.get_flows_list_by_process_id(process_id)
             for flow in flows:
                 params = flow[2]
                 BpmnDiagramGraphExport.export_flow_process_data(params, process)
-- 
2.43.0


From 79b7bb36d1e95e09cb620c58ae2cf6a29cf58ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:24 +0000
Subject: [PATCH 12/40] fix: export one edge per message flow and one shape per
 black-box participant

---
 bpmn_python/bpmn_diagram_export.py | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/bpmn_python/bpmn_diagram_export.py b/bpmn_python/bpmn_diagram_export.py
index 230afd2..48a5458 100644
--- a/bpmn_python/bpmn_diagram_export.py
+++ b/bpmn_python/bpmn_diagram_export.py
@@ -450,16 +450,6 @@ class BpmnDiagramGraphExport(object):
                 message_flow.set(consts.Consts.source_ref, message_flow_attr[consts.Consts.source_ref])
                 message_flow.set(consts.Consts.target_ref, message_flow_attr[consts.Consts.target_ref])
 
-                message_flow_params = bpmn_diagram.get_flow_by_id(message_flow_id)[2]
-                output_flow = eTree.SubElement(plane, BpmnDiagramGraphExport.bpmndi_namespace + consts.Consts.bpmn_edge)
-                output_flow.set(consts.Consts.id, message_flow_id + "_gui")
-                output_flow.set(consts.Consts.bpmn_element, message_flow_id)
-                waypoints = message_flow_params[consts.Consts.waypoints]
-                for waypoint in waypoints:
-                    waypoint_element = eTree.SubElement(output_flow, "omgdi:waypoint")
-                    waypoint_element.set(consts.Consts.x, waypoint[0])
-                    waypoint_element.set(consts.Consts.y, waypoint[1])
-
             for participant_id, participant_attr in participants.items():
                 participant = eTree.SubElement(collaboration_xml, consts.Consts.participant)
                 participant.set(consts.Consts.id, participant_id)
@@ -503,7 +493,9 @@ class BpmnDiagramGraphExport(object):
         for node in nodes:
             node_id = node[0]
             params = node[1]
-            BpmnDiagramGraphExport.export_node_di_data(node_id, params, plane)
+            # shapes of participants are already exported with the collaboration
+            if params[consts.Consts.type] != consts.Consts.participant:
+                BpmnDiagramGraphExport.export_node_di_data(node_id, params, plane)
 
         flows = bpmn_diagram.get_flows()
         for flow in flows:
-- 
2.43.0


From 24d2340071c606428a331291b555486604700685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:29 +0000
Subject: [PATCH 13/40] fix: keep the name of a sequence flow that has a
 condition on export

---
 bpmn_python/bpmn_diagram_export.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bpmn_python/bpmn_diagram_export.py b/bpmn_python/bpmn_diagram_export.py
index 48a5458..a02a359 100644
--- a/bpmn_python/bpmn_diagram_export.py
+++ b/bpmn_python/bpmn_diagram_export.py
@@ -400,7 +400,8 @@ class BpmnDiagramGraphExport(object):
             condition_expression.set(consts.Consts.id, condition_expression_params[consts.Consts.id])
             condition_expression.set(consts.Consts.id, condition_expression_params[consts.Consts.id])
             condition_expression.text = condition_expression_params[consts.Consts.condition_expression]
-            output_flow.set(consts.Consts.name, condition_expression_params[consts.Consts.condition_expression])
+            if params[consts.Consts.name] == "":
+                output_flow.set(consts.Consts.name, condition_expression_params[consts.Consts.condition_expression])
 
     @staticmethod
     def export_flow_di_data(params, plane):
-- 
2.43.0


From 50a318d3a583f33b002398638c30be8260fe4fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:33 +0000
Subject: [PATCH 14/40] fix: read the whole text of flow references and
 conditions on XML import

---
 bpmn_python/bpmn_diagram_import.py |  8 ++++----
 bpmn_python/bpmn_import_utils.py   | 11 +++++++++++
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/bpmn_python/bpmn_diagram_import.py b/bpmn_python/bpmn_diagram_import.py
index d5ddcca..0cf097c 100644
--- a/bpmn_python/bpmn_diagram_import.py
+++ b/bpmn_python/bpmn_diagram_import.py
@@ -276,7 +276,7 @@ class BpmnDiagramGraphImport(object):
                 if tag_name == consts.Consts.child_lane_set:
                     child_lane_set_attr = BpmnDiagramGraphImport.import_child_lane_set_element(element, plane_element)
                 elif tag_name == consts.Consts.flow_node_ref:
-                    flow_node_ref_id = element.firstChild.nodeValue
+                    flow_node_ref_id = utils.BpmnImportUtils.get_element_text(element).strip()
                     flow_node_refs.append(flow_node_ref_id)
 
         lane_attr = {consts.Consts.id: lane_id, consts.Consts.name: lane_name,
@@ -363,7 +363,7 @@ class BpmnDiagramGraphImport(object):
             if tmp_element.nodeType != tmp_element.TEXT_NODE:
                 tag_name = utils.BpmnImportUtils.remove_namespace_from_tag_name(tmp_element.tagName)
                 if tag_name == consts.Consts.incoming_flow:
-                    incoming_value = tmp_element.firstChild.nodeValue
+                    incoming_value = utils.BpmnImportUtils.get_element_text(tmp_element).strip()
                     incoming_list.append(incoming_value)
         bpmn_graph.node[element_id][consts.Consts.incoming_flow] = incoming_list
 
@@ -373,7 +373,7 @@ class BpmnDiagramGraphImport(object):
             if tmp_element.nodeType != tmp_element.TEXT_NODE:
                 tag_name = utils.BpmnImportUtils.remove_namespace_from_tag_name(tmp_element.tagName)
                 if tag_name == consts.Consts.outgoing_flow:
-                    outgoing_value = tmp_element.firstChild.nodeValue
+                    outgoing_value = utils.BpmnImportUtils.get_element_text(tmp_element).strip()
                     outgoing_list.append(outgoing_value)
         bpmn_graph.node[element_id][consts.Consts.outgoing_flow] = outgoing_list
 
@@ -738,7 +738,7 @@ class BpmnDiagramGraphImport(object):
             if element.nodeType != element.TEXT_NODE:
                 tag_name = utils.BpmnImportUtils.remove_namespace_from_tag_name(element.tagName)
                 if tag_name == consts.Consts.condition_expression:
-                    condition_expression = element.firstChild.nodeValue
+                    condition_expression = utils.BpmnImportUtils.get_element_text(element)
                     diagram_graph[source_ref][target_ref][consts.Consts.condition_expression] = {
                         consts.Consts.id: element.getAttribute(consts.Consts.id),
                         consts.Consts.condition_expression: condition_expression
diff --git a/bpmn_python/bpmn_import_utils.py b/bpmn_python/bpmn_import_utils.py
index 47a5b06..b02204f 100644
--- a/bpmn_python/bpmn_import_utils.py
+++ b/bpmn_python/bpmn_import_utils.py
@@ -37,6 +37,17 @@ class BpmnImportUtils(object):
                 yield element
             element = element.nextSibling
 
+    @staticmethod
+    def get_element_text(element):
+        """
+        Helper function that returns the whole text content of XML element (without comments), empty string if there
+        is none.
+
+        :param element: object of Element class.
+        """
+        return "".join(child.nodeValue for child in element.childNodes
+                       if child.nodeType in (child.TEXT_NODE, child.CDATA_SECTION_NODE))
+
     @staticmethod
     def generate_nodes_clasification(bpmn_diagram):
         """
-- 
2.43.0


From ee9c9fb9a6dc3fa687b203daefa400ec89feb1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:35 +0000
Subject: [PATCH 15/40] fix: keep flows in opposite directions between the same
 two nodes apart

---
 bpmn_python/bpmn_diagram_rep.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bpmn_python/bpmn_diagram_rep.py b/bpmn_python/bpmn_diagram_rep.py
index 2987d8c..abf3e30 100644
--- a/bpmn_python/bpmn_diagram_rep.py
+++ b/bpmn_python/bpmn_diagram_rep.py
@@ -21,7 +21,7 @@ class BpmnDiagramGraph(object):
 
     Fields:
 
-    * diagram_graph - networkx.Graph object, stores elements of BPMN diagram as nodes. Each edge of graph represents
+    * diagram_graph - networkx.DiGraph object, stores elements of BPMN diagram as nodes. Each edge of graph represents
         sequenceFlow element. Edges are identified by IDs of nodes connected by edge. IDs are passed as edge parameters,
     * sequence_flows - dictionary (associative list) of sequence flows existing in diagram.
         Key attribute is sequenceFlow ID, value is a dictionary consisting three key-value pairs: "name" (sequence flow
@@ -47,7 +47,7 @@ class BpmnDiagramGraph(object):
         """
         Default constructor, initializes object fields with new instances.
         """
-        self.diagram_graph = nx.Graph()
+        self.diagram_graph = nx.DiGraph()
         self.sequence_flows = {}
         self.process_elements = {}
         self.diagram_attributes = {}
-- 
2.43.0


From 91043e8c90c86054e01a1f02ed32cb28c7594cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:34 +0000
Subject: [PATCH 16/40] fix: do not take the eleventh row of a branch for its
 first row in CSV import

---
 bpmn_python/bpmn_process_csv_import.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bpmn_python/bpmn_process_csv_import.py b/bpmn_python/bpmn_process_csv_import.py
index 82e3e63..35633fd 100644
--- a/bpmn_python/bpmn_process_csv_import.py
+++ b/bpmn_python/bpmn_process_csv_import.py
@@ -19,7 +19,7 @@ regex_pa_trailing_letter = r'(.+)([a-z|A-Z])'
 regex_pa_merge_node_finder = r'(.*?)([0-9]+[a-z|A-Z])(.*?)'
 regex_pa_num_let = r'([0-9]+)([a-z,A-Z])'
 regex_prefix_split_succ = r'^'
-regex_suffix_split_succ = r'([a-z|A-Z]|[a-z|A-Z][1]+)$'
+regex_suffix_split_succ = r'([a-z|A-Z]|[a-z|A-Z]1)$'
 
 default_process_id = 'process_1'
 default_plane_id = 'plane_1'
-- 
2.43.0


From ae68374a5a08e47fc6b6583759df36aece4e71c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:39 +0000
Subject: [PATCH 17/40] fix: continue a nested branch at the innermost level
 that continues in CSV import

---
 bpmn_python/bpmn_process_csv_import.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/bpmn_python/bpmn_process_csv_import.py b/bpmn_python/bpmn_process_csv_import.py
index 35633fd..5ddc383 100644
--- a/bpmn_python/bpmn_process_csv_import.py
+++ b/bpmn_python/bpmn_process_csv_import.py
@@ -141,14 +141,17 @@ def get_possible_merge_continuation_successors(node_id_arg):
 
     result_trailing_letter = re.match(regex_pa_trailing_letter, node_id)
     if result_trailing_letter:
+        # the innermost level comes first
         possible_successors = []
+        prefix = ""
         for result in re.finditer(regex_pa_merge_node_finder, node_id):
             num_let_pair = result.group(2)
-            prefix = result.group(1)
+            prefix += result.group(1)
             num_let_result = re.match(regex_pa_num_let, num_let_pair)
             num = num_let_result.group(1)
             inc_num = str(int(num) + 1)
-            possible_successors.append(prefix + inc_num)
+            possible_successors.insert(0, prefix + inc_num)
+            prefix += num_let_pair
         return possible_successors
     else:
         return []
@@ -485,8 +488,8 @@ def fill_graph_connections(process_dict, bpmn_diagram, sequence_flows):
             pass
         elif is_there_merge_continuation(node_id, nodes_ids):
             possible_merge_successors = get_possible_merge_continuation_successors(node_id)
-            merge_successor_id = get_possible_successor_present_in_node_ids_or_raise_excp(possible_merge_successors,
-                                                                                          nodes_ids)
+            merge_successor_id = next(successor_id for successor_id in possible_merge_successors
+                                      if successor_id in nodes_ids)
             merge_gateway_id, just_created = add_merge_gateway_if_not_exists(merge_successor_id, bpmn_diagram)
             if just_created:
                 add_connection(merge_gateway_id, merge_successor_id, process_dict, bpmn_diagram, sequence_flows)
-- 
2.43.0


From 7d29468acd7f75fb36edf037d338581e8510d778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:44 +0000
Subject: [PATCH 18/40] fix: keep the activity text of a terminated row in CSV
 import

---
 bpmn_python/bpmn_process_csv_import.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bpmn_python/bpmn_process_csv_import.py b/bpmn_python/bpmn_process_csv_import.py
index 5ddc383..0df8d3d 100644
--- a/bpmn_python/bpmn_process_csv_import.py
+++ b/bpmn_python/bpmn_process_csv_import.py
@@ -56,7 +56,7 @@ def add_node_info_to_diagram_graph(order, node_type, activity, process_id, bpmn_
     elif node_type == consts.Consts.subprocess:
         bpmn_diagram.add_subprocess_to_diagram(process_id, subprocess_name=activity, node_id=order)
     elif node_type == consts.Consts.end_event:
-        bpmn_diagram.add_end_event_to_diagram(process_id, node_id=order)
+        bpmn_diagram.add_end_event_to_diagram(process_id, end_event_name=activity, node_id=order)
     elif node_type == consts.Consts.inclusive_gateway:
         bpmn_diagram.add_inclusive_gateway_to_diagram(process_id, node_id=order)
     elif node_type == consts.Consts.exclusive_gateway:
-- 
2.43.0


From 63033ad7f42ff8aff669d3bc1faf034865216742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:50 +0000
Subject: [PATCH 19/40] fix: give flows of an imported CSV the same name in the
 flow table and in the graph

---
 bpmn_python/bpmn_process_csv_import.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bpmn_python/bpmn_process_csv_import.py b/bpmn_python/bpmn_process_csv_import.py
index 0df8d3d..ab66f93 100644
--- a/bpmn_python/bpmn_process_csv_import.py
+++ b/bpmn_python/bpmn_process_csv_import.py
@@ -324,7 +324,7 @@ def add_edge(from_node_id, to_node_id, process_dict, bpmn_diagram, sequence_flow
             consts.Consts.id: flow_id + "_cond",
             consts.Consts.condition_expression: condition
         }
-    sequence_flows[flow_id] = {consts.Consts.name: flow_id, consts.Consts.source_ref: from_node_id,
+    sequence_flows[flow_id] = {consts.Consts.name: "", consts.Consts.source_ref: from_node_id,
                                consts.Consts.target_ref: to_node_id}
 
 
-- 
2.43.0


From 220c7d7678ebe2d56b0b3b87b264ad28d3db444f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:09 +0000
Subject: [PATCH 20/40] fix: do not require or wire a continuation of a goto
 row in CSV import

---
 bpmn_python/bpmn_process_csv_import.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/bpmn_python/bpmn_process_csv_import.py b/bpmn_python/bpmn_process_csv_import.py
index ab66f93..65a3c34 100644
--- a/bpmn_python/bpmn_process_csv_import.py
+++ b/bpmn_python/bpmn_process_csv_import.py
@@ -257,6 +257,16 @@ def is_node_the_end_event(node_id, process_dict):
     return process_dict[node_id][consts.Consts.csv_terminated] == 'yes'
 
 
+def is_node_the_goto(node_id, process_dict):
+    """
+
+    :param node_id:
+    :param process_dict:
+    :return:
+    """
+    return process_dict[node_id][consts.Consts.csv_activity].lower().startswith("goto")
+
+
 def add_outgoing_flow(node_id, successor_node_id, bpmn_diagram):
     """
 
@@ -473,7 +483,7 @@ def fill_graph_connections(process_dict, bpmn_diagram, sequence_flows):
     nodes_ids_to_process = copy.deepcopy(nodes_ids)
     while bool(nodes_ids_to_process):
         node_id = str(nodes_ids_to_process.pop(0))
-        if is_node_the_end_event(node_id, process_dict):
+        if is_node_the_end_event(node_id, process_dict) or is_node_the_goto(node_id, process_dict):
             pass
         elif is_there_sequence_continuation(node_id, nodes_ids):
             possible_sequence_successors = get_possible_sequence_continuation_successor(node_id)
@@ -572,8 +582,10 @@ def remove_goto_nodes(process_dict, diagram_graph, sequence_flows):
     :param sequence_flows:
     """
     for order, csv_line_dict in copy.deepcopy(process_dict).items():
-        if csv_line_dict[consts.Consts.csv_activity].lower().startswith("goto"):
-            source_node, _ = remove_node(order, process_dict, diagram_graph, sequence_flows)
+        if is_node_the_goto(order, process_dict):
+            source_node = remove_incoming_connection(order, diagram_graph, sequence_flows)
+            diagram_graph.diagram_graph.remove_node(order)
+            del process_dict[order]
             target_node = csv_line_dict[consts.Consts.csv_activity].strip().split()[1]
             add_connection(source_node, target_node, process_dict, diagram_graph, sequence_flows)
 
-- 
2.43.0


From bcc07bcc84ec60dde07e668d987057054a2a6035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:38 +0000
Subject: [PATCH 21/40] fix: keep the condition of a goto row in CSV import

---
 bpmn_python/bpmn_process_csv_import.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/bpmn_python/bpmn_process_csv_import.py b/bpmn_python/bpmn_process_csv_import.py
index 65a3c34..bc6bd13 100644
--- a/bpmn_python/bpmn_process_csv_import.py
+++ b/bpmn_python/bpmn_process_csv_import.py
@@ -312,7 +312,7 @@ def get_flow_id(from_node_id, to_node_id):
     return from_node_id + "__" + to_node_id
 
 
-def add_edge(from_node_id, to_node_id, process_dict, bpmn_diagram, sequence_flows):
+def add_edge(from_node_id, to_node_id, process_dict, bpmn_diagram, sequence_flows, condition=None):
     """
 
     :param from_node_id:
@@ -320,8 +320,10 @@ def add_edge(from_node_id, to_node_id, process_dict, bpmn_diagram, sequence_flow
     :param process_dict:
     :param bpmn_diagram:
     :param sequence_flows:
+    :param condition: condition of the flow. By default - the condition of the target node.
     """
-    condition = get_connection_condition_if_present(to_node_id, process_dict)
+    if condition is None:
+        condition = get_connection_condition_if_present(to_node_id, process_dict)
     bpmn_diagram.diagram_graph.add_edge(from_node_id, to_node_id)
     flow_id = get_flow_id(from_node_id, to_node_id)
     bpmn_diagram.diagram_graph[from_node_id][to_node_id][consts.Consts.id] = flow_id
@@ -338,7 +340,7 @@ def add_edge(from_node_id, to_node_id, process_dict, bpmn_diagram, sequence_flow
                                consts.Consts.target_ref: to_node_id}
 
 
-def add_connection(from_node_id, to_node_id, process_dict, diagram_graph, sequence_flows):
+def add_connection(from_node_id, to_node_id, process_dict, diagram_graph, sequence_flows, condition=None):
     """
 
     :param from_node_id:
@@ -346,10 +348,11 @@ def add_connection(from_node_id, to_node_id, process_dict, diagram_graph, sequen
     :param process_dict:
     :param diagram_graph:
     :param sequence_flows:
+    :param condition: condition of the flow. By default - the condition of the target node.
     """
     add_outgoing_flow(from_node_id, to_node_id, diagram_graph)
     add_incoming_flow(to_node_id, from_node_id, diagram_graph)
-    add_edge(from_node_id, to_node_id, process_dict, diagram_graph, sequence_flows)
+    add_edge(from_node_id, to_node_id, process_dict, diagram_graph, sequence_flows, condition)
 
 
 def get_node_conditions(split_successors, process_dict):
@@ -587,7 +590,8 @@ def remove_goto_nodes(process_dict, diagram_graph, sequence_flows):
             diagram_graph.diagram_graph.remove_node(order)
             del process_dict[order]
             target_node = csv_line_dict[consts.Consts.csv_activity].strip().split()[1]
-            add_connection(source_node, target_node, process_dict, diagram_graph, sequence_flows)
+            add_connection(source_node, target_node, process_dict, diagram_graph, sequence_flows,
+                           condition=csv_line_dict[consts.Consts.csv_condition])
 
 
 class BpmnDiagramGraphCSVImport(object):
-- 
2.43.0


From 8f4d62b50625986e4ba13bbe04860a058ecc6f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:43 +0000
Subject: [PATCH 22/40] fix: report a goto row that names no row with the
 library's own error

---
 bpmn_python/bpmn_process_csv_import.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bpmn_python/bpmn_process_csv_import.py b/bpmn_python/bpmn_process_csv_import.py
index bc6bd13..f015bb5 100644
--- a/bpmn_python/bpmn_process_csv_import.py
+++ b/bpmn_python/bpmn_process_csv_import.py
@@ -590,6 +590,8 @@ def remove_goto_nodes(process_dict, diagram_graph, sequence_flows):
             diagram_graph.diagram_graph.remove_node(order)
             del process_dict[order]
             target_node = csv_line_dict[consts.Consts.csv_activity].strip().split()[1]
+            if not diagram_graph.diagram_graph.has_node(target_node):
+                raise bpmn_exception.BpmnPythonError("Something wrong in csv file syntax - look for " + order)
             add_connection(source_node, target_node, process_dict, diagram_graph, sequence_flows,
                            condition=csv_line_dict[consts.Consts.csv_condition])
 
-- 
2.43.0


From 78abc40fa79c0cad858a7a419f0b0cfc360c8247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:56 +0000
Subject: [PATCH 23/40] fix: read all cells of an imported CSV as text

---
 bpmn_python/bpmn_process_csv_import.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bpmn_python/bpmn_process_csv_import.py b/bpmn_python/bpmn_process_csv_import.py
index f015bb5..8e7275e 100644
--- a/bpmn_python/bpmn_process_csv_import.py
+++ b/bpmn_python/bpmn_process_csv_import.py
@@ -630,7 +630,7 @@ class BpmnDiagramGraphCSVImport(object):
         :param filepath:
         :return:
         """
-        process_dict = pd.read_csv(filepath, index_col=0).fillna("").to_dict('index')
+        process_dict = pd.read_csv(filepath, index_col=0, dtype=str, keep_default_na=False).fillna("").to_dict('index')
         remove_white_spaces_in_orders(process_dict)
         return process_dict
 
-- 
2.43.0


From 1fe3c38dc0c92c50974588ef48f93d3c590d5565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:04 +0000
Subject: [PATCH 24/40] fix: quote cells with commas, quotes or line breaks in
 CSV export

---
 bpmn_python/bpmn_process_csv_export.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bpmn_python/bpmn_process_csv_export.py b/bpmn_python/bpmn_process_csv_export.py
index 47d71f1..16f76c6 100644
--- a/bpmn_python/bpmn_process_csv_export.py
+++ b/bpmn_python/bpmn_process_csv_export.py
@@ -6,6 +6,7 @@ Process Modeling" by Kluza k. and Wisniewski P.
 from __future__ import print_function
 
 import copy
+import csv
 import errno
 import os
 import string
@@ -292,8 +293,8 @@ class BpmnDiagramGraphCsvExport(object):
         :param export_elements: a dictionary object. The key is a node ID, value is a dictionary of parameters that
                will be used in exported CSV document.
         """
+        csv_writer = csv.writer(file_object, lineterminator="\n")
         for export_element in export_elements:
             # Order,Activity,Condition,Who,Subprocess,Terminated
-            file_object.write(
-                export_element["Order"] + "," + export_element["Activity"] + "," + export_element["Condition"] + "," +
-                export_element["Who"] + "," + export_element["Subprocess"] + "," + export_element["Terminated"] + "\n")
+            csv_writer.writerow([export_element["Order"], export_element["Activity"], export_element["Condition"],
+                                 export_element["Who"], export_element["Subprocess"], export_element["Terminated"]])
-- 
2.43.0


From ecfb8bee12b3da13b4a485848a45684dbd77c790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:08 +0000
Subject: [PATCH 25/40] fix: do not export the rest of the process inside a
 branch when joins follow each other

---
 bpmn_python/bpmn_process_csv_export.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bpmn_python/bpmn_process_csv_export.py b/bpmn_python/bpmn_process_csv_export.py
index 16f76c6..9804cc5 100644
--- a/bpmn_python/bpmn_process_csv_export.py
+++ b/bpmn_python/bpmn_process_csv_export.py
@@ -191,9 +191,11 @@ class BpmnDiagramGraphCsvExport(object):
                         next_node = tmp_next_node
 
             if next_node is not None:
+                # a join gateway that directly follows belongs to the enclosing split
+                next_node_is_activity = next_node[1][consts.Consts.type] in BpmnDiagramGraphCsvExport.tasks_list
                 return BpmnDiagramGraphCsvExport.export_node(bpmn_graph, export_elements, next_node,
                                                              nodes_classification, order=(order + 1), prefix=prefix,
-                                                             who=who, add_join=True)
+                                                             who=who, add_join=next_node_is_activity)
 
         elif len(outgoing_flows) == 1:
             outgoing_flow_id = outgoing_flows[0]
-- 
2.43.0


From a67774d42feb490e08f2c0bbefe81b450aa0705e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:13 +0000
Subject: [PATCH 26/40] fix: export the condition of an unnamed flow to CSV

---
 bpmn_python/bpmn_process_csv_export.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bpmn_python/bpmn_process_csv_export.py b/bpmn_python/bpmn_process_csv_export.py
index 9804cc5..ffdfd7a 100644
--- a/bpmn_python/bpmn_process_csv_export.py
+++ b/bpmn_python/bpmn_process_csv_export.py
@@ -172,6 +172,9 @@ class BpmnDiagramGraphCsvExport(object):
                     condition = outgoing_flow[2][consts.Consts.name]
                 else:
                     condition = ""
+                if node_type != consts.Consts.parallel_gateway and condition == "" \
+                        and consts.Consts.condition_expression in outgoing_flow[2]:
+                    condition = outgoing_flow[2][consts.Consts.condition_expression][consts.Consts.condition_expression]
 
                 if BpmnDiagramGraphCsvExport.classification_join in nodes_classification[outgoing_node[0]]:
                     export_elements.append(
-- 
2.43.0


From a351209c34ad0bbbd3b952d6b617bb4eda21e17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:17 +0000
Subject: [PATCH 27/40] fix: mark an empty default branch with else in CSV
 export

---
 bpmn_python/bpmn_process_csv_export.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bpmn_python/bpmn_process_csv_export.py b/bpmn_python/bpmn_process_csv_export.py
index ffdfd7a..c045036 100644
--- a/bpmn_python/bpmn_process_csv_export.py
+++ b/bpmn_python/bpmn_process_csv_export.py
@@ -179,7 +179,7 @@ class BpmnDiagramGraphCsvExport(object):
                 if BpmnDiagramGraphCsvExport.classification_join in nodes_classification[outgoing_node[0]]:
                     export_elements.append(
                         {"Order": next_prefix + str(1), "Activity": "goto " + prefix + str(order + 1),
-                         "Condition": condition, "Who": who, "Subprocess": "", "Terminated": ""})
+                         "Condition": "else" if outgoing_flow_id == default_flow_id else condition, "Who": who, "Subprocess": "", "Terminated": ""})
                 elif outgoing_flow_id == default_flow_id:
                     tmp_next_node = BpmnDiagramGraphCsvExport.export_node(bpmn_graph, export_elements, outgoing_node,
                                                                           nodes_classification, 1, next_prefix, "else",
-- 
2.43.0


From 7e61d64cf0acbbf57e0f8bdd43c3caa346728e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:50 +0000
Subject: [PATCH 28/40] fix: accept None where element classes document an
 optional field

---
 bpmn_python/graph/classes/base_element_type.py  | 2 +-
 bpmn_python/graph/classes/message_flow_type.py  | 2 +-
 bpmn_python/graph/classes/participant_type.py   | 2 +-
 bpmn_python/graph/classes/sequence_flow_type.py | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/bpmn_python/graph/classes/base_element_type.py b/bpmn_python/graph/classes/base_element_type.py
index 55f7e02..e3b8e9f 100644
--- a/bpmn_python/graph/classes/base_element_type.py
+++ b/bpmn_python/graph/classes/base_element_type.py
@@ -32,7 +32,7 @@ class BaseElement(object):
         """
         if value is None:
             self.__id = value
-        if not isinstance(value, str):
+        elif not isinstance(value, str):
             raise TypeError("ID must be set to a String")
         else:
             self.__id = value
diff --git a/bpmn_python/graph/classes/message_flow_type.py b/bpmn_python/graph/classes/message_flow_type.py
index 50aee47..5e5e890 100644
--- a/bpmn_python/graph/classes/message_flow_type.py
+++ b/bpmn_python/graph/classes/message_flow_type.py
@@ -100,7 +100,7 @@ class MessageFlow(base_element.BaseElement):
         """
         if value is None:
             self.__message_ref = value
-        if not isinstance(value, str):
+        elif not isinstance(value, str):
             raise TypeError("MessageRef must be set to a String")
         else:
             self.__message_ref = value
diff --git a/bpmn_python/graph/classes/participant_type.py b/bpmn_python/graph/classes/participant_type.py
index a71fd7d..793f1a5 100644
--- a/bpmn_python/graph/classes/participant_type.py
+++ b/bpmn_python/graph/classes/participant_type.py
@@ -55,6 +55,6 @@ class Participant(base_element.BaseElement):
         :param value - a new value of 'process_ref' field. Must be either None (process_ref is optional according to
         BPMN 2.0 XML Schema) or String.
         """
-        if not isinstance(value, str):
+        if value is not None and not isinstance(value, str):
             raise TypeError("ProcessRef must be set to a String")
         self.__process_ref = value
diff --git a/bpmn_python/graph/classes/sequence_flow_type.py b/bpmn_python/graph/classes/sequence_flow_type.py
index 1c8fa00..f4588f2 100644
--- a/bpmn_python/graph/classes/sequence_flow_type.py
+++ b/bpmn_python/graph/classes/sequence_flow_type.py
@@ -100,7 +100,7 @@ class SequenceFlow(flow_element.FlowElement):
         """
         if value is None:
             self.__condition_expression = value
-        if not isinstance(value, condition_expression.ConditionExpression):
+        elif not isinstance(value, condition_expression.ConditionExpression):
             raise TypeError("ConditionExpression must be set to an instance of class ConditionExpression")
         else:
             self.__condition_expression = value
-- 
2.43.0


From 32d6cc0b8d1b2808c0bacbfea35bfcf3e25b0108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:55 +0000
Subject: [PATCH 29/40] fix: check the type of target_ref in flow constructors

---
 bpmn_python/graph/classes/message_flow_type.py  | 2 +-
 bpmn_python/graph/classes/sequence_flow_type.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bpmn_python/graph/classes/message_flow_type.py b/bpmn_python/graph/classes/message_flow_type.py
index 5e5e890..88ef0bf 100644
--- a/bpmn_python/graph/classes/message_flow_type.py
+++ b/bpmn_python/graph/classes/message_flow_type.py
@@ -22,7 +22,7 @@ class MessageFlow(base_element.BaseElement):
         """
         if source_ref is None or not isinstance(source_ref, str):
             raise TypeError("SourceRef is required and must be set to a String")
-        if target_ref is None or not isinstance(source_ref, str):
+        if target_ref is None or not isinstance(target_ref, str):
             raise TypeError("TargetRef is required and must be set to a String")
 
         super(MessageFlow, self).__init__()
diff --git a/bpmn_python/graph/classes/sequence_flow_type.py b/bpmn_python/graph/classes/sequence_flow_type.py
index f4588f2..f7338e4 100644
--- a/bpmn_python/graph/classes/sequence_flow_type.py
+++ b/bpmn_python/graph/classes/sequence_flow_type.py
@@ -23,7 +23,7 @@ class SequenceFlow(flow_element.FlowElement):
         """
         if source_ref is None or not isinstance(source_ref, str):
             raise TypeError("SourceRef is required and must be set to a String")
-        if target_ref is None or not isinstance(source_ref, str):
+        if target_ref is None or not isinstance(target_ref, str):
             raise TypeError("TargetRef is required and must be set to a String")
 
         super(SequenceFlow, self).__init__()
-- 
2.43.0


From 837ef736e42411515c4610122e0dffc6897f2cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:59 +0000
Subject: [PATCH 30/40] fix: derive FlowNode from the same FlowElement class
 the other element classes use

---
 bpmn_python/graph/classes/flow_node_type.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bpmn_python/graph/classes/flow_node_type.py b/bpmn_python/graph/classes/flow_node_type.py
index 83916b7..7b049d2 100644
--- a/bpmn_python/graph/classes/flow_node_type.py
+++ b/bpmn_python/graph/classes/flow_node_type.py
@@ -2,7 +2,7 @@
 """
 Class used for representing tFlowNode of BPMN 2.0 graph
 """
-import bpmn_python.graph.classes.flow_element_type as flow_element_type
+import graph.classes.flow_element_type as flow_element_type
 
 
 class FlowNode(flow_element_type.FlowElement):
-- 
2.43.0


From 621fbe659cf82f87114d254dc0f68b2c7ae095e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:26 +0000
Subject: [PATCH 31/40] fix: keep the goto's condition when its join gateway is
 dropped on CSV import

---
 bpmn_python/bpmn_process_csv_import.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bpmn_python/bpmn_process_csv_import.py b/bpmn_python/bpmn_process_csv_import.py
index 8e7275e..d8b4dce 100644
--- a/bpmn_python/bpmn_process_csv_import.py
+++ b/bpmn_python/bpmn_process_csv_import.py
@@ -573,8 +573,12 @@ def remove_unnecessary_merge_gateways(process_dict, bpmn_diagram, sequence_flows
                             consts.Consts.parallel_gateway]:
             if len(node[1].get(consts.Consts.incoming_flow)) < 2 \
                     and len(node[1].get(consts.Consts.outgoing_flow)) < 2:
+                outgoing_flow = bpmn_diagram.get_flow_by_id(node[1].get(consts.Consts.outgoing_flow)[0])[2]
+                condition = outgoing_flow.get(consts.Consts.condition_expression, {}).get(
+                    consts.Consts.condition_expression, "")
                 new_source_node, new_target_node = remove_node(node[0], process_dict, bpmn_diagram, sequence_flows)
-                add_connection(new_source_node, new_target_node, process_dict, bpmn_diagram, sequence_flows)
+                add_connection(new_source_node, new_target_node, process_dict, bpmn_diagram, sequence_flows,
+                               condition=condition)
 
 
 def remove_goto_nodes(process_dict, diagram_graph, sequence_flows):
-- 
2.43.0


From 6e4dcdc80edf05afa55dd43afac5719067906881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:30 +0000
Subject: [PATCH 32/40] fix: flow that replaces a goto row keeps its place
 among the branches

---
 bpmn_python/bpmn_process_csv_import.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/bpmn_python/bpmn_process_csv_import.py b/bpmn_python/bpmn_process_csv_import.py
index d8b4dce..60d6cfc 100644
--- a/bpmn_python/bpmn_process_csv_import.py
+++ b/bpmn_python/bpmn_process_csv_import.py
@@ -590,7 +590,11 @@ def remove_goto_nodes(process_dict, diagram_graph, sequence_flows):
     """
     for order, csv_line_dict in copy.deepcopy(process_dict).items():
         if is_node_the_goto(order, process_dict):
-            source_node = remove_incoming_connection(order, diagram_graph, sequence_flows)
+            goto_flow_id = diagram_graph.diagram_graph.node[order][consts.Consts.incoming_flow][0]
+            source_node = sequence_flows[goto_flow_id][consts.Consts.source_ref]
+            source_outgoing = diagram_graph.diagram_graph.node[source_node][consts.Consts.outgoing_flow]
+            position = source_outgoing.index(goto_flow_id)
+            remove_incoming_connection(order, diagram_graph, sequence_flows)
             diagram_graph.diagram_graph.remove_node(order)
             del process_dict[order]
             target_node = csv_line_dict[consts.Consts.csv_activity].strip().split()[1]
@@ -598,6 +602,8 @@ def remove_goto_nodes(process_dict, diagram_graph, sequence_flows):
                 raise bpmn_exception.BpmnPythonError("Something wrong in csv file syntax - look for " + order)
             add_connection(source_node, target_node, process_dict, diagram_graph, sequence_flows,
                            condition=csv_line_dict[consts.Consts.csv_condition])
+            # the flow takes the place of the goto row among the branches
+            source_outgoing.insert(position, source_outgoing.pop())
 
 
 class BpmnDiagramGraphCSVImport(object):
-- 
2.43.0


From 7afa39a41121248747befbcf2f24c00ba2e0113d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:32 +0000
Subject: [PATCH 33/40] fix: join gateway that leads to the join activity of an
 enclosing split on CSV export

---
 bpmn_python/bpmn_process_csv_export.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/bpmn_python/bpmn_process_csv_export.py b/bpmn_python/bpmn_process_csv_export.py
index c045036..422e278 100644
--- a/bpmn_python/bpmn_process_csv_export.py
+++ b/bpmn_python/bpmn_process_csv_export.py
@@ -138,15 +138,7 @@ class BpmnDiagramGraphCsvExport(object):
 
         if BpmnDiagramGraphCsvExport.classification_join in node_classification and not add_join:
             # If the node is a join, then retract the recursion back to the split.
-            # In case of activity - return current node. In case of gateway - return outgoing node
-            # (we are making assumption that join has only one outgoing node)
-            if node_type == consts.Consts.task or node_type == consts.Consts.subprocess:
-                return node
-            else:
-                outgoing_flow_id = outgoing_flows[0]
-                outgoing_flow = bpmn_graph.get_flow_by_id(outgoing_flow_id)
-                outgoing_node = bpmn_graph.get_node_by_id(outgoing_flow[2][consts.Consts.target_ref])
-                return outgoing_node
+            return node
         else:
             if node_type == consts.Consts.task:
                 export_elements.append({"Order": prefix + str(order), "Activity": node[1][consts.Consts.node_name],
@@ -194,11 +186,16 @@ class BpmnDiagramGraphCsvExport(object):
                         next_node = tmp_next_node
 
             if next_node is not None:
-                # a join gateway that directly follows belongs to the enclosing split
-                next_node_is_activity = next_node[1][consts.Consts.type] in BpmnDiagramGraphCsvExport.tasks_list
+                # In case of activity - continue with the join itself. In case of gateway - continue with its outgoing node
+                # (we are making assumption that join has only one outgoing node). If that is a join, too, then it
+                # belongs to the enclosing split.
+                join_is_activity = next_node[1][consts.Consts.type] in BpmnDiagramGraphCsvExport.tasks_list
+                if not join_is_activity:
+                    join_outgoing_flow = bpmn_graph.get_flow_by_id(next_node[1][consts.Consts.outgoing_flow][0])
+                    next_node = bpmn_graph.get_node_by_id(join_outgoing_flow[2][consts.Consts.target_ref])
                 return BpmnDiagramGraphCsvExport.export_node(bpmn_graph, export_elements, next_node,
                                                              nodes_classification, order=(order + 1), prefix=prefix,
-                                                             who=who, add_join=next_node_is_activity)
+                                                             who=who, add_join=join_is_activity)
 
         elif len(outgoing_flows) == 1:
             outgoing_flow_id = outgoing_flows[0]
-- 
2.43.0


From b43b296dc3c4da16be105146a01eaa5db0479e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:43 +0000
Subject: [PATCH 34/40] fix: black-box pools drawn with the label "true" in the
 picture

---
 bpmn_python/bpmn_diagram_visualizer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bpmn_python/bpmn_diagram_visualizer.py b/bpmn_python/bpmn_diagram_visualizer.py
index 89009d6..c320d76 100644
--- a/bpmn_python/bpmn_diagram_visualizer.py
+++ b/bpmn_python/bpmn_diagram_visualizer.py
@@ -84,7 +84,8 @@ def bpmn_diagram_to_png(bpmn_diagram, file_name):
         elif node[1].get(consts.Consts.type) == consts.Consts.exclusive_gateway:
             n = pydotplus.Node(name=node[0], shape="diamond", label=node[1].get(consts.Consts.node_name))
         else:
-            n = pydotplus.Node(name=node[0], label=node[1].get(consts.Consts.node_name))
+            # black-box pools are nodes without a name, for which Graphviz would draw the label "true"
+            n = pydotplus.Node(name=node[0], label=node[1].get(consts.Consts.node_name, ""))
         graph.add_node(n)
 
     for edge in g.edges(data=True):
-- 
2.43.0


From 0efb65ab796c268bd6a0a1b4f4c43ec7ee605d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:00 +0000
Subject: [PATCH 35/40] fix: activity after a join gateway that an empty branch
 of the same split leads to was not exported

---
 bpmn_python/bpmn_process_csv_export.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/bpmn_python/bpmn_process_csv_export.py b/bpmn_python/bpmn_process_csv_export.py
index 422e278..445c299 100644
--- a/bpmn_python/bpmn_process_csv_export.py
+++ b/bpmn_python/bpmn_process_csv_export.py
@@ -188,14 +188,17 @@ class BpmnDiagramGraphCsvExport(object):
             if next_node is not None:
                 # In case of activity - continue with the join itself. In case of gateway - continue with its outgoing node
                 # (we are making assumption that join has only one outgoing node). If that is a join, too, then it
-                # belongs to the enclosing split.
-                join_is_activity = next_node[1][consts.Consts.type] in BpmnDiagramGraphCsvExport.tasks_list
-                if not join_is_activity:
+                # belongs to the enclosing split, unless an empty branch of this split leads to it.
+                own_join = next_node[1][consts.Consts.type] in BpmnDiagramGraphCsvExport.tasks_list
+                if not own_join:
                     join_outgoing_flow = bpmn_graph.get_flow_by_id(next_node[1][consts.Consts.outgoing_flow][0])
                     next_node = bpmn_graph.get_node_by_id(join_outgoing_flow[2][consts.Consts.target_ref])
+                    own_join = next_node[1][consts.Consts.type] in BpmnDiagramGraphCsvExport.tasks_list \
+                        and any(bpmn_graph.get_flow_by_id(flow_id)[2][consts.Consts.target_ref] == next_node[0]
+                                for flow_id in outgoing_flows)
                 return BpmnDiagramGraphCsvExport.export_node(bpmn_graph, export_elements, next_node,
                                                              nodes_classification, order=(order + 1), prefix=prefix,
-                                                             who=who, add_join=join_is_activity)
+                                                             who=who, add_join=own_join)
 
         elif len(outgoing_flows) == 1:
             outgoing_flow_id = outgoing_flows[0]
-- 
2.43.0


From 1e2e56318d4843b0888cfb81af524b7bf231f4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:24 +0000
Subject: [PATCH 36/40] fix: give black-box pools the lists of flows every node
 has

---
 bpmn_python/bpmn_diagram_import.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bpmn_python/bpmn_diagram_import.py b/bpmn_python/bpmn_diagram_import.py
index 0cf097c..0f1c4a9 100644
--- a/bpmn_python/bpmn_diagram_import.py
+++ b/bpmn_python/bpmn_diagram_import.py
@@ -108,6 +108,9 @@ class BpmnDiagramGraphImport(object):
             diagram_graph.add_node(participant_id)
             diagram_graph.node[participant_id][consts.Consts.type] = consts.Consts.participant
             diagram_graph.node[participant_id][consts.Consts.process] = participant_id
+            # message flows may have been imported before the participant
+            diagram_graph.node[participant_id].setdefault(consts.Consts.incoming_flow, [])
+            diagram_graph.node[participant_id].setdefault(consts.Consts.outgoing_flow, [])
         participants_dictionary[participant_id] = {consts.Consts.name: name, consts.Consts.process_ref: process_ref}
 
     @staticmethod
-- 
2.43.0


From 205523e6444e73fb5787f59500652d01040f9844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:06 +0000
Subject: [PATCH 37/40] fix: do not write an empty id on condition expressions
 that have none

---
 bpmn_python/bpmn_diagram_export.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bpmn_python/bpmn_diagram_export.py b/bpmn_python/bpmn_diagram_export.py
index a02a359..a2279fd 100644
--- a/bpmn_python/bpmn_diagram_export.py
+++ b/bpmn_python/bpmn_diagram_export.py
@@ -397,8 +397,8 @@ class BpmnDiagramGraphExport(object):
         if consts.Consts.condition_expression in params:
             condition_expression_params = params[consts.Consts.condition_expression]
             condition_expression = eTree.SubElement(output_flow, consts.Consts.condition_expression)
-            condition_expression.set(consts.Consts.id, condition_expression_params[consts.Consts.id])
-            condition_expression.set(consts.Consts.id, condition_expression_params[consts.Consts.id])
+            if condition_expression_params[consts.Consts.id] != "":
+                condition_expression.set(consts.Consts.id, condition_expression_params[consts.Consts.id])
             condition_expression.text = condition_expression_params[consts.Consts.condition_expression]
             if params[consts.Consts.name] == "":
                 output_flow.set(consts.Consts.name, condition_expression_params[consts.Consts.condition_expression])
-- 
2.43.0


From c3426c6e291d79a92f5fcf39fea3f8cd9b177e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:55 +0000
Subject: [PATCH 38/40] fix: sequence flows between nodes that have no position

---
 bpmn_python/bpmn_diagram_rep.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bpmn_python/bpmn_diagram_rep.py b/bpmn_python/bpmn_diagram_rep.py
index abf3e30..f74e1c8 100644
--- a/bpmn_python/bpmn_diagram_rep.py
+++ b/bpmn_python/bpmn_diagram_rep.py
@@ -525,9 +525,11 @@ class BpmnDiagramGraph(object):
         flow[consts.Consts.process] = process_id
         flow[consts.Consts.source_ref] = source_ref_id
         flow[consts.Consts.target_ref] = target_ref_id
-        flow[consts.Consts.waypoints] = \
-            [(source_node[consts.Consts.x], source_node[consts.Consts.y]),
-             (target_node[consts.Consts.x], target_node[consts.Consts.y])]
+        # nodes imported without a shape have no position
+        if consts.Consts.x in source_node and consts.Consts.x in target_node:
+            flow[consts.Consts.waypoints] = \
+                [(source_node[consts.Consts.x], source_node[consts.Consts.y]),
+                 (target_node[consts.Consts.x], target_node[consts.Consts.y])]
 
         # add target node (target_ref_id) as outgoing node from source node (source_ref_id)
         source_node[consts.Consts.outgoing_flow].append(sequence_flow_id)
-- 
2.43.0


From efc9824d1b46172feff0923a4220a65e599f640b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:58 +0000
Subject: [PATCH 39/40] fix: export diagrams in which some elements have no
 drawing data

---
 bpmn_python/bpmn_diagram_export.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/bpmn_python/bpmn_diagram_export.py b/bpmn_python/bpmn_diagram_export.py
index a2279fd..50ac7e9 100644
--- a/bpmn_python/bpmn_diagram_export.py
+++ b/bpmn_python/bpmn_diagram_export.py
@@ -280,6 +280,8 @@ class BpmnDiagramGraphExport(object):
                 flow_node_ref_xml = eTree.SubElement(lane_xml, consts.Consts.flow_node_ref)
                 flow_node_ref_xml.text = flow_node_ref_id
 
+        if consts.Consts.x not in lane_attr:
+            return
         output_element_di = eTree.SubElement(plane_element, BpmnDiagramGraphExport.bpmndi_namespace +
                                              consts.Consts.bpmn_shape)
         output_element_di.set(consts.Consts.id, lane_id + "_gui")
@@ -369,6 +371,8 @@ class BpmnDiagramGraphExport(object):
         :param params: dictionary with node parameters,
         :param plane: object of Element class, representing BPMN XML 'BPMNPlane' element (root for node DI data).
         """
+        if consts.Consts.x not in params:
+            return
         output_element_di = eTree.SubElement(plane, BpmnDiagramGraphExport.bpmndi_namespace + consts.Consts.bpmn_shape)
         output_element_di.set(consts.Consts.id, node_id + "_gui")
 
@@ -379,7 +383,7 @@ class BpmnDiagramGraphExport(object):
         bounds.set(consts.Consts.x, params[consts.Consts.x])
         bounds.set(consts.Consts.y, params[consts.Consts.y])
         if params[consts.Consts.type] == consts.Consts.subprocess:
-            output_element_di.set(consts.Consts.is_expanded, params[consts.Consts.is_expanded])
+            output_element_di.set(consts.Consts.is_expanded, params.get(consts.Consts.is_expanded, "false"))
 
     @staticmethod
     def export_flow_process_data(params, process):
@@ -411,6 +415,8 @@ class BpmnDiagramGraphExport(object):
         :param params: dictionary with edge parameters,
         :param plane: object of Element class, representing BPMN XML 'BPMNPlane' element (root for edge DI data).
         """
+        if consts.Consts.waypoints not in params:
+            return
         output_flow = eTree.SubElement(plane, BpmnDiagramGraphExport.bpmndi_namespace + consts.Consts.bpmn_edge)
         output_flow.set(consts.Consts.id, params[consts.Consts.id] + "_gui")
         output_flow.set(consts.Consts.bpmn_element, params[consts.Consts.id])
@@ -457,6 +463,8 @@ class BpmnDiagramGraphExport(object):
                 participant.set(consts.Consts.name, participant_attr[consts.Consts.name])
                 participant.set(consts.Consts.process_ref, participant_attr[consts.Consts.process_ref])
 
+                if consts.Consts.x not in participant_attr:
+                    continue
                 output_element_di = eTree.SubElement(plane, BpmnDiagramGraphExport.bpmndi_namespace +
                                                      consts.Consts.bpmn_shape)
                 output_element_di.set(consts.Consts.id, participant_id + "_gui")
-- 
2.43.0


From 05560da0f02a8910fa10e0a5e629ab7aed0617eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:01 +0000
Subject: [PATCH 40/40] fix: layout gives a size to nodes that have none, so
 that they can be exported

---
 bpmn_python/bpmn_diagram_layouter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bpmn_python/bpmn_diagram_layouter.py b/bpmn_python/bpmn_diagram_layouter.py
index 1850cb4..fd62020 100644
--- a/bpmn_python/bpmn_diagram_layouter.py
+++ b/bpmn_python/bpmn_diagram_layouter.py
@@ -424,6 +424,9 @@ def set_coordinates_for_nodes(bpmn_graph, grid):
         cell = next(grid_cell for grid_cell in grid if grid_cell.node_id == node[0])
         node[1][consts.Consts.x] = str(cell.col * 150 + 50)
         node[1][consts.Consts.y] = str(cell.row * 100 + 50)
+        # nodes imported without a shape have no size
+        node[1].setdefault(consts.Consts.width, "100")
+        node[1].setdefault(consts.Consts.height, "100")
 
 
 def set_flows_waypoints(bpmn_graph):
-- 
2.43.0

