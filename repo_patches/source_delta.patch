From fc560a7856fc4b278dd43084bd6f54e907cb7397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:33 +0000
Subject: [PATCH 01/43] fix: report overall coverage over the covergroups of
 all instances

build_covergroups() overwrote report.coverage for each instance scope, so
only the last instance counted, and divided by zero when an instance had no
covergroups (or only covergroups of weight 0).
---
 src/ucis/report/coverage_report_builder.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/ucis/report/coverage_report_builder.py b/src/ucis/report/coverage_report_builder.py
index 0a01b93..c8502c0 100644
--- a/src/ucis/report/coverage_report_builder.py
+++ b/src/ucis/report/coverage_report_builder.py
@@ -35,22 +35,26 @@ class CoverageReportBuilder(object):
         for iscope in self.db.scopes(ScopeTypeT.INSTANCE):
             self.build_covergroups(iscope)
             
+        # The overall coverage is that of the covergroups in all instances
+        coverage = 0.0
+        div = 0
+        
+        for cg in self.report.covergroups:
+            if cg.weight > 0:
+                coverage += cg.coverage * cg.weight
+            div += cg.weight
+            
+        if div > 0: self.report.coverage = coverage/div
+            
         return self.report
             
 
     def build_covergroups(self, iscope):
         
-        coverage = 0.0
-        div = 0
-        
         for cg_t in iscope.scopes(ScopeTypeT.COVERGROUP):
             cg = self.build_covergroup(cg_t)
-            if cg.weight > 0:
-                coverage += cg.coverage * cg.weight
-            div += cg.weight
             self.report.covergroups.append(cg)
             self.report.covergroup_m[cg.instname] = cg
-        self.report.coverage = coverage/div
             
     def build_covergroup(self, cg_n)->CoverageReport.Covergroup:
         cg_r = CoverageReport.Covergroup(
-- 
2.43.0


From f27d883c202abd048116803b53e4526ecfca95f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:33 +0000
Subject: [PATCH 02/43] fix: use the weight and at_least of crosses in the
 coverage report

build_cross() left the weight of every cross at 1 and reported the (constant)
bin goal instead of at_least, so CoverBin.hit disagreed with the percentage.
---
 src/ucis/report/coverage_report_builder.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ucis/report/coverage_report_builder.py b/src/ucis/report/coverage_report_builder.py
index c8502c0..43c4e10 100644
--- a/src/ucis/report/coverage_report_builder.py
+++ b/src/ucis/report/coverage_report_builder.py
@@ -82,7 +82,8 @@ class CoverageReportBuilder(object):
             div += cp.weight
             
         for cr in cg_r.crosses:
-            coverage += cr.coverage * cr.weight
+            if cr.weight > 0:
+                coverage += cr.coverage * cr.weight
             div += cr.weight
             
         if div > 0: coverage /= div
@@ -137,6 +138,7 @@ class CoverageReportBuilder(object):
 
     def build_cross(self, cr_n : Cross):
         cr_r = CoverageReport.Cross(cr_n.getScopeName())
+        cr_r.weight = cr_n.getWeight()
         
         # Read in bins
         num_hit = 0
@@ -149,7 +151,7 @@ class CoverageReportBuilder(object):
                 
             cr_r.bins.append(CoverageReport.CoverBin(
                     ci_n.getName(),
-                    cvg_data.goal,
+                    cvg_data.at_least,
                     cvg_data.data))
 
             total += 1
-- 
2.43.0


From 5001dfbeb6cd90e548a6f1796063e03f53a799a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:33 +0000
Subject: [PATCH 03/43] fix: fill in the name maps of the covergroups in the
 coverage report

coverpoint_m, cross_m and covergroup_m are documented but stayed empty.
---
 src/ucis/report/coverage_report_builder.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/ucis/report/coverage_report_builder.py b/src/ucis/report/coverage_report_builder.py
index 43c4e10..c8ec67e 100644
--- a/src/ucis/report/coverage_report_builder.py
+++ b/src/ucis/report/coverage_report_builder.py
@@ -64,13 +64,17 @@ class CoverageReportBuilder(object):
         cg_r.weight = cg_n.getWeight()
         
         for cp_in in cg_n.scopes(ScopeTypeT.COVERPOINT):
-            cg_r.coverpoints.append(self.build_coverpoint(cp_in))
+            cg_r.add_coverpoint(self.build_coverpoint(cp_in))
             
         for cr_in in cg_n.scopes(ScopeTypeT.CROSS):
-            cg_r.crosses.append(self.build_cross(cr_in))
+            cr_r = self.build_cross(cr_in)
+            cg_r.crosses.append(cr_r)
+            cg_r.cross_m[cr_r.name] = cr_r
 
         for cg_in in cg_n.scopes(ScopeTypeT.COVERINSTANCE):
-            cg_r.covergroups.append(self.build_covergroup(cg_in))
+            cg_i_r = self.build_covergroup(cg_in)
+            cg_r.covergroups.append(cg_i_r)
+            cg_r.covergroup_m[cg_i_r.instname] = cg_i_r
             
         # Determine the covergroup coverage
         coverage = 0.0
-- 
2.43.0


From 039209bc32dc089c86debf83473bb45ac49f57d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:25 +0000
Subject: [PATCH 04/43] fix: json report of crosses, and names and goals
 missing from it

report_cross() called a writeln() that does not exist, so any database with a
cross failed; the coverpoint names, the cross coverage and the bin goals, all
part of the report schema, were not written, and the schema of a covergroup
type had no crosses.
---
 src/ucis/report/format_rpt_json.py | 9 ++++++---
 src/ucis/schema/covreport.json     | 5 +++++
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/ucis/report/format_rpt_json.py b/src/ucis/report/format_rpt_json.py
index c16acbf..9db9511 100644
--- a/src/ucis/report/format_rpt_json.py
+++ b/src/ucis/report/format_rpt_json.py
@@ -100,6 +100,7 @@ class FormatRptJson(FormatIfRpt):
     def report_coverpoint(self, cp : CoverageReport.Coverpoint):
         
         cp_j = self._ns.Coverpoint()
+        cp_j.name = cp.name
         cp_j.coverage = cp.coverage
         
         if self.details:
@@ -108,6 +109,7 @@ class FormatRptJson(FormatIfRpt):
                 for b in cp.bins:
                     b_j = self._ns.CoverBin()
                     b_j.name = b.name
+                    b_j.goal = b.goal
                     b_j.count = b.count
                     cp_j.bins.append(b_j)
             if cp.ignore_bins is not None and len(cp.ignore_bins) > 0:
@@ -115,6 +117,7 @@ class FormatRptJson(FormatIfRpt):
                 for b in cp.ignore_bins:
                     b_j = self._ns.CoverBin()
                     b_j.name = b.name
+                    b_j.goal = b.goal
                     b_j.count = b.count
                     cp_j.ignorebins.append(b_j)
             if cp.illegal_bins is not None and len(cp.illegal_bins) > 0:
@@ -122,6 +125,7 @@ class FormatRptJson(FormatIfRpt):
                 for b in cp.illegal_bins:
                     b_j = self._ns.CoverBin()
                     b_j.name = b.name
+                    b_j.goal = b.goal
                     b_j.count = b.count
                     cp_j.illegalbins.append(b_j)
 
@@ -131,9 +135,7 @@ class FormatRptJson(FormatIfRpt):
         
         cr_j = self._ns.Cross()
         cr_j.name = cr.name
-        cr_j.weight = cr.weight
-        
-        self.writeln("CROSS %s : %f%%", cr.name, round(cr.coverage))
+        cr_j.coverage = cr.coverage
         
         if self.details:
             if cr.bins is not None:
@@ -141,6 +143,7 @@ class FormatRptJson(FormatIfRpt):
                 for b in cr.bins:
                     b_j = self._ns.CoverBin()
                     b_j.name = b.name
+                    b_j.goal = b.goal
                     b_j.count = b.count
                     cr_j.bins.append(b_j)
 
diff --git a/src/ucis/schema/covreport.json b/src/ucis/schema/covreport.json
index 756c4e1..58e0e1a 100644
--- a/src/ucis/schema/covreport.json
+++ b/src/ucis/schema/covreport.json
@@ -42,6 +42,11 @@
 					"type": "array",
 					"items": { "$ref": "#/defs/coverpointType" }
 				},
+				"crosses": {
+					"description": "List of cross coverpoints",
+					"type": "array",
+					"items": { "$ref": "#/defs/crossType" }
+				},
 				"covergroups": {
 					"description": "List of instance covergroups",
 					"type": "array",
-- 
2.43.0


From 56fe31d5d7a8bceb3b6ef6e9b20e387ffe5e6dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:25 +0000
Subject: [PATCH 05/43] fix: yaml: keep ignore and illegal bins out of the
 regular type bins

The derived type coverpoint received the ignore and illegal bins of its
instances as regular bins, which count towards coverage.
---
 src/ucis/yaml/yaml_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ucis/yaml/yaml_reader.py b/src/ucis/yaml/yaml_reader.py
index aba3b0f..acc3fdd 100644
--- a/src/ucis/yaml/yaml_reader.py
+++ b/src/ucis/yaml/yaml_reader.py
@@ -163,7 +163,7 @@ class YamlReader(object):
                                     t_b = self.cvg_ns.CoverageBin()
                                     t_b.name = str(b.name)
                                     t_b.count = 0
-                                    cp_t.bins.append(t_b)
+                                    cp_t.ignorebins.append(t_b)
                                 t_b.count += b.count
                                 
                         if cp.illegalbins is not None:
@@ -180,7 +180,7 @@ class YamlReader(object):
                                     t_b = self.cvg_ns.CoverageBin()
                                     t_b.name = str(b.name)
                                     t_b.count = 0
-                                    cp_t.bins.append(t_b)
+                                    cp_t.illegalbins.append(t_b)
                                 t_b.count += b.count
                         
                 if cg_i.crosses is not None:
-- 
2.43.0


From 68af7d55848f2c372016b0c87ae5fbe2c5f7bcef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:25 +0000
Subject: [PATCH 06/43] fix: yaml: apply atleast to the derived type coverage

Type coverpoints and crosses were created with the default atleast of 1,
whatever the instances specify.
---
 src/ucis/yaml/yaml_reader.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ucis/yaml/yaml_reader.py b/src/ucis/yaml/yaml_reader.py
index acc3fdd..ab77f08 100644
--- a/src/ucis/yaml/yaml_reader.py
+++ b/src/ucis/yaml/yaml_reader.py
@@ -126,6 +126,8 @@ class YamlReader(object):
                         if str(cp.name) not in cp_t_m.keys():
                             cp_t = self.cvg_ns.Coverpoint()
                             cp_t.name = str(cp.name)
+                            if cp.atleast is not None:
+                                cp_t.atleast = int(cp.atleast)
                             cp_t_m[cp_t.name] = cp_t
                             cp_t_l.append(cp_t)
                         else:
@@ -191,6 +193,8 @@ class YamlReader(object):
                         if str(cr.name) not in cr_t_m.keys():
                             cr_t = self.cvg_ns.Cross()
                             cr_t.name = str(cr.name)
+                            if cr.atleast is not None:
+                                cr_t.atleast = int(cr.atleast)
                             cr_t.coverpoints = []
                             for cr_cp in cr.coverpoints:
                                 cr_t.coverpoints.append(cr_cp)
-- 
2.43.0


From 536a84551c1da998edec25c41e6fc8959b3a6601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:41 +0000
Subject: [PATCH 07/43] fix: yaml: accept covergroups without instances and
 crosses without bins

A covergroup type without instances (or a cross whose first instance has no
bins) is valid but made the reader fail, and a cross was silently bound to a
coverpoint of an earlier instance when its own instance lacks it.
---
 src/ucis/yaml/yaml_reader.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/ucis/yaml/yaml_reader.py b/src/ucis/yaml/yaml_reader.py
index ab77f08..dca8388 100644
--- a/src/ucis/yaml/yaml_reader.py
+++ b/src/ucis/yaml/yaml_reader.py
@@ -201,15 +201,14 @@ class YamlReader(object):
                             cr_t_bins_m = {}
                             cr_t_m[str(cr.name)] = (cr_t, cr_t_bins_m)
                             cr_t_l.append(cr_t)
-                            
-                            if cr.bins is not None:
-                                cr_t.bins = []
                         else:
                             cr_t = cr_t_m[str(cr.name)][0]
                             cr_t_bins_m = cr_t_m[str(cr.name)][1]
                             
                         # Now, proceed to aggregate bins
                         if cr.bins is not None:
+                            if cr_t.bins is None:
+                                cr_t.bins = []
                             for b in cr.bins:
                                 if b.name in cr_t_bins_m.keys():
                                     cr_t_bins_m[str(b.name)].count += b.count
@@ -249,8 +248,9 @@ class YamlReader(object):
             self.record_cross(cg_t_scope, cp_l, cr)
 
         # Now, write out instances
-        cp_n_scope_m = {}
-        for i in cg_t.instances:
+        for i in (cg_t.instances if cg_t.instances is not None else []):
+            # A cross refers to the coverpoints of its own instance
+            cp_n_scope_m = {}
             cg_i_scope = cg_t_scope.createCoverInstance(
                 str(i.name),
                 cg_location,
-- 
2.43.0


From 9c6899058d057f8091f9d16dbfd7e7fff30bd7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:11 +0000
Subject: [PATCH 08/43] fix: xml: let an XmlReader read more than one document

The scope maps survived read(), so the second document was read into the
scopes of the first database and the database returned for it stayed empty.
---
 src/ucis/xml/xml_reader.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ucis/xml/xml_reader.py b/src/ucis/xml/xml_reader.py
index c51da9a..25973e3 100644
--- a/src/ucis/xml/xml_reader.py
+++ b/src/ucis/xml/xml_reader.py
@@ -58,6 +58,10 @@ class XmlReader():
         tree = etree.parse(file)
         root = tree.getroot()
         self.db = MemUCIS()
+        # The maps refer to scopes of the database being read
+        self.file_m = {}
+        self.module_scope_m = {}
+        self.inst_scope_m = {}
         
         for elem in root.getiterator():
             if not hasattr(elem.tag, 'find'): continue  # (1)
-- 
2.43.0


From 60e119fd5844778dbe9f26ca0c192a183994b1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:39 +0000
Subject: [PATCH 09/43] fix: xml: record and interpret weight and at_least

As documented, the weight and at_least options are now written and read. They
were dropped, so converting or merging to XML changed the coverage reported
for any item with a weight or an at_least other than 1. Also write
auto_bin_max=0, as documented.
---
 src/ucis/xml/xml_reader.py | 29 +++++++++++++++++++----------
 src/ucis/xml/xml_writer.py | 24 +++++++++++++++++++-----
 2 files changed, 38 insertions(+), 15 deletions(-)

diff --git a/src/ucis/xml/xml_reader.py b/src/ucis/xml/xml_reader.py
index 25973e3..a54e847 100644
--- a/src/ucis/xml/xml_reader.py
+++ b/src/ucis/xml/xml_reader.py
@@ -185,7 +185,7 @@ class XmlReader():
             cg_typescope = inst_scope.createCovergroup(
                 cg_typename,
                 None,
-                1,
+                int(self.getAttr(cg, "weight", "1")),
                 UCIS_OTHER)
 
             # Process all instances of a given covergroup type
@@ -205,7 +205,7 @@ class XmlReader():
             cg_i = cg_t.createCoverInstance(
                 cg_i_name, 
                 srcinfo,
-                1,
+                self.getOptionInt(cg_e, "weight", 1),
                 UCIS_OTHER)
 
             # Build up a map of coverpoint name/inst-handle refs
@@ -220,8 +220,9 @@ class XmlReader():
                     cp_t = cg_t.createCoverpoint(
                         cp_name,
                         srcinfo,
-                        1,
+                        self.getOptionInt(cp_e, "weight", 1),
                         UCIS_OTHER)
+                    cp_t.setAtLeast(self.getOptionInt(cp_e, "at_least", 1))
 
                     # Tuple of coverpoint type and map between
                     # bin name and count
@@ -253,9 +254,10 @@ class XmlReader():
                     cr_t = cg_t.createCross(
                         cp_name,
                         srcinfo,
-                        1,
+                        self.getOptionInt(cr_e, "weight", 1),
                         UCIS_OTHER,
                         cp_l)
+                    cr_t.setAtLeast(self.getOptionInt(cr_e, "at_least", 1))
 
                     cr_i = (cr_t, {})
                     cr_m[cp_name] = cr_i
@@ -284,8 +286,9 @@ class XmlReader():
         cp = cg_i.createCoverpoint(
             self.getAttr(cp_e, "name", "<unknown>"),
             srcinfo,
-            1, # weight
+            self.getOptionInt(cp_e, "weight", 1),
             UCIS_OTHER)
+        cp.setAtLeast(self.getOptionInt(cp_e, "at_least", 1))
         
         for cpBin in cp_e.iter("coverpointBin"):
             self.readCoverpointBin(cpBin, cp, cp_type_i)
@@ -329,7 +332,7 @@ class XmlReader():
         cp.createBin(
             cp_bin_name,
             srcinfo,
-            1,
+            cp.getAtLeast(),
             cp_bin_count,
             self.getAttr(cpBin, "name", "default"),
             kind)
@@ -341,7 +344,7 @@ class XmlReader():
             cp_t.createBin(
                 bin_name,
                 srcinfo,
-                1,
+                cp_t.getAtLeast(),
                 count,
                 bin_name,
                 kind)
@@ -363,9 +366,10 @@ class XmlReader():
         cr = cg_i.createCross(
             name,
             srcinfo,
-            1, # weight
+            self.getOptionInt(cr_e, "weight", 1),
             UCIS_OTHER,
             cp_l)
+        cr.setAtLeast(self.getOptionInt(cr_e, "at_least", 1))
         
         for crb_e in cr_e.iter("crossBin"):
             self.readCrossBin(crb_e, cr, cr_type_i)
@@ -380,7 +384,7 @@ class XmlReader():
             cr_t.createBin(
                 bin_name,
                 srcinfo,
-                1, # weight
+                cr_t.getAtLeast(),
                 count,
                 "") # TODO:
         pass
@@ -400,7 +404,7 @@ class XmlReader():
         cr.createBin(
             name,
             srcinfo,
-            1, # weight
+            cr.getAtLeast(),
             count,
             "") # TODO:
 
@@ -467,6 +471,11 @@ class XmlReader():
         else:
             return default
         
+    def getOptionInt(self, e, name, default):
+        """Returns an option from the 'options' element of the specified item"""
+        optionsN = e.find("options")
+        return int(self.getAttr(optionsN, name, default)) if optionsN is not None else default
+        
     def getAttrBool(self, e, name):
         if e.attrib[name] == "true":
             return True
diff --git a/src/ucis/xml/xml_writer.py b/src/ucis/xml/xml_writer.py
index 722670a..6d67a86 100644
--- a/src/ucis/xml/xml_writer.py
+++ b/src/ucis/xml/xml_writer.py
@@ -172,7 +172,7 @@ class XmlWriter():
     def write_covergroups(self, inst, scope):
         for cg in scope.scopes(ScopeTypeT.COVERGROUP):
             cgElem = self.mkElem(inst, "covergroupCoverage")
-#            self.setAttr(cgElem, "weight", str(scope.getWeight()))
+            self.setAttr(cgElem, "weight", str(cg.getWeight()))
 
             inst_it = cg.scopes(ScopeTypeT.COVERINSTANCE)
             
@@ -192,7 +192,10 @@ class XmlWriter():
         self.setAttr(cgInstElem, "name", cg.getScopeName())
         self.setAttr(cgInstElem, "key", "0")
         
-        self.write_options(cgInstElem, cg)
+        optsElem = self.write_options(cgInstElem, cg)
+        
+        # All bins are explicit
+        self.setAttr(optsElem, "auto_bin_max", "0")
         
         cgIdElem = self.mkElem(cgInstElem, "cgId")
         self.setAttr(cgIdElem, "cgName", cgName)
@@ -221,7 +224,7 @@ class XmlWriter():
         self.setAttr(cpElem, "name", cp.getScopeName())
         self.setAttr(cpElem, "key", "0")
         
-        self.write_options(cpElem, cp)
+        self.write_bin_options(cpElem, cp)
         
         self.write_coverpoint_bins(cpElem, cp.coverItems(
             CoverTypeT.CVGBIN|CoverTypeT.IGNOREBIN|CoverTypeT.ILLEGALBIN))
@@ -261,7 +264,7 @@ class XmlWriter():
         crossElem = self.mkElem(cgInstElem, "cross")
         self.setAttr(crossElem, "name", cr.getScopeName())
         self.setAttr(crossElem, "key", "0")
-        self.write_options(crossElem, cr)
+        self.write_bin_options(crossElem, cr)
 
         # Each cross expression lists one element of the cross        
 
@@ -289,7 +292,18 @@ class XmlWriter():
             
     
     def write_options(self, parent, opts_item):
-        self.mkElem(parent, "options")
+        optsElem = self.mkElem(parent, "options")
+        self.setAttr(optsElem, "weight", str(opts_item.getWeight()))
+        return optsElem
+        
+    def write_bin_options(self, parent, opts_item):
+        optsElem = self.write_options(parent, opts_item)
+        
+        # at_least is held by the bins, and is the same for all of them
+        for ci in opts_item.coverItems(
+            CoverTypeT.CVGBIN|CoverTypeT.IGNOREBIN|CoverTypeT.ILLEGALBIN):
+            self.setAttr(optsElem, "at_least", str(ci.getCoverData().at_least))
+            break
         
 
     def write_statement_id(self, stmt_id : StatementId, p, name="id"):
-- 
2.43.0


From 36af4639a4e3c99bcbee3e3ea5796eef04bddadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:39 +0000
Subject: [PATCH 10/43] fix: xml: keep the type of ignore and illegal cross
 bins

They were written as regular bins, and read as such, so they counted towards
coverage after a round trip.
---
 src/ucis/xml/xml_reader.py | 23 ++++++++++++++++-------
 src/ucis/xml/xml_writer.py |  7 ++++++-
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/ucis/xml/xml_reader.py b/src/ucis/xml/xml_reader.py
index a54e847..eed9038 100644
--- a/src/ucis/xml/xml_reader.py
+++ b/src/ucis/xml/xml_reader.py
@@ -379,14 +379,14 @@ class XmlReader():
     def populateCrossType(self, cr_t, cr_bin_m):
         srcinfo = None
 
-        for bin_name,count in cr_bin_m.items():
-            cr_t.createBin
+        for (bin_name,kind),count in cr_bin_m.items():
             cr_t.createBin(
                 bin_name,
                 srcinfo,
                 cr_t.getAtLeast(),
                 count,
-                "") # TODO:
+                "", # TODO:
+                kind)
         pass
     
     def readCrossBin(self, crb_e, cr, cr_type_i):
@@ -396,17 +396,26 @@ class XmlReader():
 
         count = self.getAttrInt(contentsN, "coverageCount")
 
-        if name in cr_type_i[1].keys():
-            cr_type_i[1][name] += count
+        kind_a = self.getAttr(crb_e, "type", "default")
+        if kind_a == "ignore":
+            kind = UCIS_IGNOREBIN
+        elif kind_a == "illegal":
+            kind = UCIS_ILLEGALBIN
+        else:
+            kind = UCIS_CVGBIN
+
+        if (name,kind) in cr_type_i[1].keys():
+            cr_type_i[1][(name,kind)] += count
         else:
-            cr_type_i[1][name] = count
+            cr_type_i[1][(name,kind)] = count
 
         cr.createBin(
             name,
             srcinfo,
             cr.getAtLeast(),
             count,
-            "") # TODO:
+            "", # TODO:
+            kind)
 
         
 
diff --git a/src/ucis/xml/xml_writer.py b/src/ucis/xml/xml_writer.py
index 6d67a86..508fde3 100644
--- a/src/ucis/xml/xml_writer.py
+++ b/src/ucis/xml/xml_writer.py
@@ -282,7 +282,12 @@ class XmlWriter():
             crBinElem = self.mkElem(crossElem, "crossBin")
             self.setAttr(crBinElem, "name", cr_bin.getName())
             self.setAttr(crBinElem, "key", "0")
-            self.setAttr(crBinElem, "type", "default") # TOOD: illegal, ignore
+            if cov_data.type == CoverTypeT.IGNOREBIN:
+                self.setAttr(crBinElem, "type", "ignore")
+            elif cov_data.type == CoverTypeT.ILLEGALBIN:
+                self.setAttr(crBinElem, "type", "illegal")
+            else:
+                self.setAttr(crBinElem, "type", "default")
             
             index = self.mkElem(crBinElem, "index")
             index.text = "-1" # Note: this is a meaningless value
-- 
2.43.0


From da1832793c98dd67e4fe60425831e5bd5566b305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:39 +0000
Subject: [PATCH 11/43] fix: xml: do not merge type bins of different types
 that share a name

A bin and an ignore or illegal bin of the same name were added up into a
single type bin.
---
 src/ucis/xml/xml_reader.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/ucis/xml/xml_reader.py b/src/ucis/xml/xml_reader.py
index eed9038..332a023 100644
--- a/src/ucis/xml/xml_reader.py
+++ b/src/ucis/xml/xml_reader.py
@@ -225,7 +225,7 @@ class XmlReader():
                     cp_t.setAtLeast(self.getOptionInt(cp_e, "at_least", 1))
 
                     # Tuple of coverpoint type and map between
-                    # bin name and count
+                    # bin name and type, and count
                     cp_i = (cp_t, {})
                     cp_m[cp_name] = cp_i
                 else:
@@ -323,11 +323,10 @@ class XmlReader():
         cp_bin_name = self.getAttr(cpBin, "name", "<unknown>")
         cp_bin_count = self.getAttrInt(contents, "coverageCount")
 
-        if cp_bin_name not in cp_type_i[1].keys():
-            cp_type_i[1][cp_bin_name] = (kind, cp_bin_count)
+        if (cp_bin_name,kind) not in cp_type_i[1].keys():
+            cp_type_i[1][(cp_bin_name,kind)] = cp_bin_count
         else:
-            entry = cp_type_i[1][cp_bin_name]
-            cp_type_i[1][cp_bin_name] = (entry[0], entry[1] + cp_bin_count)
+            cp_type_i[1][(cp_bin_name,kind)] += cp_bin_count
         
         cp.createBin(
             cp_bin_name,
@@ -340,7 +339,7 @@ class XmlReader():
     def populateCoverpointType(self, cp_t, cp_bin_m):
         srcinfo = None
 
-        for bin_name,(kind,count) in cp_bin_m.items():
+        for (bin_name,kind),count in cp_bin_m.items():
             cp_t.createBin(
                 bin_name,
                 srcinfo,
-- 
2.43.0


From bb41a3b250dcb95c5328442f67d88c4fa2104347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:39 +0000
Subject: [PATCH 12/43] fix: xml: write the module name of instances

The reader takes the design unit of an instance from moduleName, which was
not written, so every instance came back as one of the module 'default'.
---
 src/ucis/xml/xml_writer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ucis/xml/xml_writer.py b/src/ucis/xml/xml_writer.py
index 508fde3..4958d19 100644
--- a/src/ucis/xml/xml_writer.py
+++ b/src/ucis/xml/xml_writer.py
@@ -160,9 +160,10 @@ class XmlWriter():
             # TODO: userAttr
             
     def write_instance_coverages(self, s):
-        # TODO: determine the du_scope associated with this instance
         inst = self.mkElem(self.root, "instanceCoverages")
         inst.set("name", s.getScopeName())
+        if s.getInstanceDu() is not None:
+            inst.set("moduleName", s.getInstanceDu().getScopeName())
         inst.set("key", "0") # TODO:
         self.addId(inst, None)
         
-- 
2.43.0


From 77a84c2d8b5898d33022093a1b1fed8e708548c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:04 +0000
Subject: [PATCH 13/43] fix: record tests that did not pass as such

Every TestStatusT value is true, so testStatus was written as 'true' (and the
TEST_STATUS property was 1) for failing tests too. Reading a status of 'true'
or 'false' now produces a TestStatusT, and '1' is accepted for 'true'.
---
 src/ucis/mem/mem_history_node.py | 2 +-
 src/ucis/xml/xml_reader.py       | 5 +++--
 src/ucis/xml/xml_writer.py       | 3 ++-
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/ucis/mem/mem_history_node.py b/src/ucis/mem/mem_history_node.py
index 11fb9f9..83b1c01 100644
--- a/src/ucis/mem/mem_history_node.py
+++ b/src/ucis/mem/mem_history_node.py
@@ -67,7 +67,7 @@ class MemHistoryNode(HistoryNode):
         coverindex:int, 
         property:IntProperty)-> int:
         if property == IntProperty.TEST_STATUS:
-            return 1 if self.m_test_status else 0
+            return 1 if self.m_test_status == TestStatusT.OK else 0
         else:
             return super().getIntProperty(coverindex, property)
         
diff --git a/src/ucis/xml/xml_reader.py b/src/ucis/xml/xml_reader.py
index 332a023..0c6e57d 100644
--- a/src/ucis/xml/xml_reader.py
+++ b/src/ucis/xml/xml_reader.py
@@ -37,6 +37,7 @@ from ucis.mem.mem_file_handle import MemFileHandle
 from ucis.mem.mem_scope import MemScope
 from ucis.mem.mem_ucis import MemUCIS
 from ucis.statement_id import StatementId
+from ucis.test_status_t import TestStatusT
 from ucis.ucis import UCIS
 from ucis.xml import validate_ucis_xml
 
@@ -103,7 +104,7 @@ class XmlReader():
         kind = self.getAttr(histN, "kind", None)
         
         ret = self.db.createHistoryNode(parent, logicalname, physicalname, kind)
-        ret.setTestStatus(self.getAttrBool(histN, "testStatus"))
+        ret.setTestStatus(TestStatusT.OK if self.getAttrBool(histN, "testStatus") else TestStatusT.ERROR)
         self.setFloatIfEx(histN, ret.setSimTime, "simtime")
         self.setIfEx(histN, ret.setTimeUnit, "timeunit")
         self.setIfEx(histN, ret.setRunCwd, "runCwd")
@@ -485,7 +486,7 @@ class XmlReader():
         return int(self.getAttr(optionsN, name, default)) if optionsN is not None else default
         
     def getAttrBool(self, e, name):
-        if e.attrib[name] == "true":
+        if e.attrib[name].strip() in ("true", "1"):
             return True
         else:
             return False
diff --git a/src/ucis/xml/xml_writer.py b/src/ucis/xml/xml_writer.py
index 4958d19..cbb6e12 100644
--- a/src/ucis/xml/xml_writer.py
+++ b/src/ucis/xml/xml_writer.py
@@ -33,6 +33,7 @@ from ucis.history_node_kind import HistoryNodeKind
 from ucis.scope import Scope
 from ucis.scope_type_t import ScopeTypeT
 from ucis.statement_id import StatementId
+from ucis.test_status_t import TestStatusT
 
 from lxml import etree as et
 from lxml.etree import QName, tounicode, SubElement
@@ -108,7 +109,7 @@ class XmlWriter():
             histN.set("logicalName", h.getLogicalName())
             self.setIfNonNull(histN, "physicalName", h.getPhysicalName())
             self.setIfNonNull(histN, "kind", h.getKind())
-            self.setAttrBool(histN, "testStatus", h.getTestStatus())
+            self.setAttrBool(histN, "testStatus", h.getTestStatus() == TestStatusT.OK)
             self.setIfNonNeg(histN, "simtime", h.getSimTime())
             self.setIfNonNull(histN, "timeunit", h.getTimeUnit())
             self.setIfNonNull(histN, "runCwd", h.getRunCwd())
-- 
2.43.0


From 92b57860bc4953490215d29103ac676c72d6636e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:04 +0000
Subject: [PATCH 14/43] fix: xml: read back the kind of history nodes

The kind was read as text, so historyNodes(HistoryNodeKind.TEST) found no test
in a database read from XML.
---
 src/ucis/xml/xml_reader.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/ucis/xml/xml_reader.py b/src/ucis/xml/xml_reader.py
index 0c6e57d..a8ef06f 100644
--- a/src/ucis/xml/xml_reader.py
+++ b/src/ucis/xml/xml_reader.py
@@ -33,6 +33,7 @@ from ucis import UCIS_ENABLED_STMT, UCIS_ENABLED_BRANCH, UCIS_ENABLED_COND, \
     UCIS_ENABLED_EXPR, UCIS_ENABLED_FSM, UCIS_ENABLED_TOGGLE, UCIS_INST_ONCE, \
     UCIS_SCOPE_UNDER_DU, UCIS_DU_MODULE, UCIS_OTHER, du_scope, UCIS_INSTANCE,\
     UCIS_CVGBIN, UCIS_IGNOREBIN, UCIS_ILLEGALBIN
+from ucis.history_node_kind import HistoryNodeKind
 from ucis.mem.mem_file_handle import MemFileHandle
 from ucis.mem.mem_scope import MemScope
 from ucis.mem.mem_ucis import MemUCIS
@@ -101,7 +102,7 @@ class XmlReader():
         parent = None
         logicalname = histN.get("logicalName")
         physicalname = self.getAttr(histN, "physicalName", None)
-        kind = self.getAttr(histN, "kind", None)
+        kind = self.getHistoryNodeKind(histN)
         
         ret = self.db.createHistoryNode(parent, logicalname, physicalname, kind)
         ret.setTestStatus(TestStatusT.OK if self.getAttrBool(histN, "testStatus") else TestStatusT.ERROR)
@@ -125,6 +126,14 @@ class XmlReader():
         
         return ret
     
+    def getHistoryNodeKind(self, histN):
+        """Returns the HistoryNodeKind written by the library, or the text of other tools"""
+        kind = self.getAttr(histN, "kind", None)
+        for k in HistoryNodeKind:
+            if kind == str(int(k)):
+                return k
+        return kind
+    
     def readInstanceCoverage(self, instN):
         name = instN.attrib["name"]
         stmt_id = None
-- 
2.43.0


From 1a3bffeaf1979f4736c13661b0fe0a6d6f1c99b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:04 +0000
Subject: [PATCH 15/43] fix: write history nodes without test data, and dates
 as they are

The default date of a history node was a number, which the XML writer does not
accept, and converting a date by way of the local time zone changed those that
fall in the hour skipped by daylight saving time.
---
 src/ucis/mem/mem_history_node.py | 2 +-
 src/ucis/xml/xml_writer.py       | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/ucis/mem/mem_history_node.py b/src/ucis/mem/mem_history_node.py
index 83b1c01..78ad969 100644
--- a/src/ucis/mem/mem_history_node.py
+++ b/src/ucis/mem/mem_history_node.py
@@ -48,7 +48,7 @@ class MemHistoryNode(HistoryNode):
         self.m_cmd = None
         self.m_args = None
         self.m_compulsory = None
-        self.m_date = int(datetime.timestamp(datetime.now()))
+        self.m_date = datetime.now().strftime("%Y%m%d%H%M%S")
         self.m_user_name = None
         self.m_cost = -1
         self.m_tool_category = "unknown"
diff --git a/src/ucis/xml/xml_writer.py b/src/ucis/xml/xml_writer.py
index cbb6e12..3846fb8 100644
--- a/src/ucis/xml/xml_writer.py
+++ b/src/ucis/xml/xml_writer.py
@@ -337,8 +337,7 @@ class XmlWriter():
             e.set(name, "false")
 
     def setAttrDateTime(self, e, name, val):
-        val_i = time.mktime(datetime.strptime(val, "%Y%m%d%H%M%S").timetuple())
-        self.setAttr(e, name, datetime.fromtimestamp(val_i).isoformat())
+        self.setAttr(e, name, datetime.strptime(val, "%Y%m%d%H%M%S").isoformat())
             
     def setIfNonNull(self, n, attr, val):
         if val is not None:
-- 
2.43.0


From 72762c1ee74c73d7632007169cc767fed2c66bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:04 +0000
Subject: [PATCH 16/43] fix: exit with a non-zero status when a command fails

---
 src/ucis/__main__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ucis/__main__.py b/src/ucis/__main__.py
index a87ca6a..628c5e8 100644
--- a/src/ucis/__main__.py
+++ b/src/ucis/__main__.py
@@ -88,6 +88,7 @@ def main():
     except Exception as e:
         traceback.print_exc()
         print("Error: %s" % "{0}".format(e))
+        sys.exit(1)
 
 if __name__ == "__main__":
     main()
-- 
2.43.0


From 5fd12c8ed76faf4596a147cb7ca16425286be501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:34 +0000
Subject: [PATCH 17/43] fix: mem: keep the comment set by way of the COMMENT
 string property

MemObj hides the implementation in CvgScope, so setting the property had no
effect on in-memory covergroups, coverpoints and crosses.
---
 src/ucis/mem/mem_cvg_scope.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/ucis/mem/mem_cvg_scope.py b/src/ucis/mem/mem_cvg_scope.py
index 310fde9..70dc993 100644
--- a/src/ucis/mem/mem_cvg_scope.py
+++ b/src/ucis/mem/mem_cvg_scope.py
@@ -5,6 +5,7 @@ Created on Jan 12, 2020
 '''
 from ucis.mem.mem_scope import MemScope
 from ucis.cvg_scope import CvgScope
+from ucis.str_property import StrProperty
 
 class MemCvgScope(MemScope,CvgScope):
     
@@ -57,3 +58,22 @@ class MemCvgScope(MemScope,CvgScope):
     def setComment(self, c:str):
         self.m_comment = c
         
+    def getStringProperty(
+            self,
+            coverindex : int,
+            property : StrProperty) -> str:
+        if property == StrProperty.COMMENT:
+            return self.getComment()
+        else:
+            return super().getStringProperty(coverindex, property)
+        
+    def setStringProperty(
+            self,
+            coverindex : int,
+            property : StrProperty,
+            value : str):
+        if property == StrProperty.COMMENT:
+            self.setComment(value)
+        else:
+            super().setStringProperty(coverindex, property, value)
+        
-- 
2.43.0


From 9c1b84a951c577c4e01d3f684009321218614bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:34 +0000
Subject: [PATCH 18/43] fix: merge: keep the data of scopes that share a name
 within one database

Each database had a single slot per name, so only the last of the instances,
covergroups, covergroup instances or coverpoints of the same name (such as two
covergroup instances with the same instance name) was merged; the hits of the
others were lost.
---
 src/ucis/merge/db_merger.py | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/src/ucis/merge/db_merger.py b/src/ucis/merge/db_merger.py
index 1b9ee9b..70ae2ed 100644
--- a/src/ucis/merge/db_merger.py
+++ b/src/ucis/merge/db_merger.py
@@ -37,17 +37,14 @@ class DbMerger(object):
             for src_iscope in db.scopes(ScopeTypeT.INSTANCE):
                 name = src_iscope.getScopeName()
                 if not name in iscope_m.keys():
-                    scope_l = [None]*len(src_db_l)
-                    scope_l[i] = src_iscope
-                    iscope_m[name] = scope_l
+                    iscope_m[name] = []
                     iscope_name_l.append(name)
-                else:
-                    iscope_m[name][i] = src_iscope
+                iscope_m[name].append(src_iscope)
             
         for name in iscope_name_l:
             # We'll create the scope using the first src database
             # that it was in
-            src_scopes = list(filter(lambda e: e is not None, iscope_m[name]))
+            src_scopes = iscope_m[name]
             
             src_iscope = src_scopes[0]
             
@@ -86,13 +83,12 @@ class DbMerger(object):
                 name = src_cg.getScopeName()
                 
                 if name not in cg_name_m.keys():
-                    scope_l = [None]*len(src_scopes)
-                    cg_name_m[name] = scope_l
+                    cg_name_m[name] = []
                     cg_name_l.append(name)
-                cg_name_m[name][i] = src_cg
+                cg_name_m[name].append(src_cg)
 
         for name in cg_name_l:                
-            src_cg_l = list(filter(lambda cg: cg is not None, cg_name_m[name]))
+            src_cg_l = cg_name_m[name]
             
             # Create the destination using the first covergroup
             dst_cg = dst_scope.createCovergroup(
@@ -121,12 +117,12 @@ class DbMerger(object):
                 name = src_cg_i.getScopeName()
                 
                 if name not in cg_i_m.keys():
-                    cg_i_m[name] = [None]*len(src_cg_l)
+                    cg_i_m[name] = []
                     cg_n_l.append(name)
-                cg_i_m[name][i] = src_cg_i
+                cg_i_m[name].append(src_cg_i)
                 
         for name in cg_n_l:
-            src_cg_i_l = list(filter(lambda cg : cg is not None, cg_i_m[name]))
+            src_cg_i_l = cg_i_m[name]
             
             dst_cg_i = dst_cg.createCoverInstance(
                         name,
@@ -147,13 +143,12 @@ class DbMerger(object):
                 name = cp.getScopeName()
                 
                 if name not in cp_name_m.keys():
-                    scope_l = [None]*len(src_cg_l)
-                    cp_name_m[name] = scope_l
+                    cp_name_m[name] = []
                     cp_name_l.append(name)
-                cp_name_m[name][i] = cp
+                cp_name_m[name].append(cp)
                 
         for name in cp_name_l:
-            src_cp_l = list(filter(lambda cp : cp is not None, cp_name_m[name]))
+            src_cp_l = cp_name_m[name]
             
             dst_cp = dst_cg.createCoverpoint(
                 src_cp_l[0].getScopeName(),
@@ -214,7 +209,7 @@ class DbMerger(object):
                     coverpoint_l.append(dst_cp_m[src_cp.getScopeName()])
                 else:
                     raise Exception("Cannot find coverpoint %s when creating cross %s" % (
-                        src_cp.getName(), name))
+                        src_cp.getScopeName(), name))
 
             dst_cr = dst_cg.createCross(
                 name,
-- 
2.43.0


From 48c14caf0cd9b9461d4fee743bc19d8d0111f63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:58 +0000
Subject: [PATCH 19/43] fix: mem: give each cross its own list of coverpoints

---
 src/ucis/mem/mem_cross.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ucis/mem/mem_cross.py b/src/ucis/mem/mem_cross.py
index 9eada40..e7370a7 100644
--- a/src/ucis/mem/mem_cross.py
+++ b/src/ucis/mem/mem_cross.py
@@ -24,7 +24,8 @@ class MemCross(MemCoverpoint,Cross):
         self.m_type = UCIS_CROSS
         Cross.__init__(self)
         
-        self.coverpoints = coverpoints
+        # The list belongs to the caller
+        self.coverpoints = list(coverpoints)
         
     def getNumCrossedCoverpoints(self)->int:
         return len(self.coverpoints)
-- 
2.43.0


From eba4ad047218c9431e7fe40946d1fc497a519926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:13 +0000
Subject: [PATCH 20/43] fix: xml: keep an existing file when the data cannot be
 written

---
 src/ucis/xml/xml_factory.py | 15 ++++++++-------
 src/ucis/xml/xml_ucis.py    |  7 ++++++-
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/ucis/xml/xml_factory.py b/src/ucis/xml/xml_factory.py
index 5f9f0d5..559cab3 100644
--- a/src/ucis/xml/xml_factory.py
+++ b/src/ucis/xml/xml_factory.py
@@ -20,6 +20,7 @@ Created on Jan 5, 2020
 
 @author: ballance
 '''
+from io import StringIO
 from ucis import UCIS
 from ucis.xml.xml_writer import XmlWriter
 from ucis.xml import validate_ucis_xml
@@ -84,12 +85,12 @@ class XmlFactory():
         writer = XmlWriter()
         
         if type(file_or_filename) == str:
-            fp = open(file_or_filename, "w")
+            # Leave an existing file alone if the data cannot be written
+            buf = StringIO()
+            writer.write(buf, db)
+            
+            with open(file_or_filename, "w") as fp:
+                fp.write(buf.getvalue())
         else:
-            fp = file_or_filename
-        
-        writer.write(fp, db)
-        
-        if type(file_or_filename) == str:
-            fp.close()
+            writer.write(file_or_filename, db)
             
diff --git a/src/ucis/xml/xml_ucis.py b/src/ucis/xml/xml_ucis.py
index 46eb10e..da0ec36 100644
--- a/src/ucis/xml/xml_ucis.py
+++ b/src/ucis/xml/xml_ucis.py
@@ -1,4 +1,5 @@
 
+from io import StringIO
 from ucis.mem import MemUCIS
 from .xml_writer import XmlWriter
 
@@ -8,5 +9,9 @@ class XmlUCIS(MemUCIS):
 
         writer = XmlWriter()
 
+        # Leave an existing file alone if the data cannot be written
+        buf = StringIO()
+        writer.write(buf, self)
+
         with open(file, "w") as fp:
-            writer.write(fp, self)
+            fp.write(buf.getvalue())
-- 
2.43.0


From 357e17b2d47bd73d6aa70420dc54f2cea1ba91d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:27 +0000
Subject: [PATCH 21/43] fix: yaml: keep warnings out of reports on standard
 output

---
 src/ucis/yaml/yaml_reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ucis/yaml/yaml_reader.py b/src/ucis/yaml/yaml_reader.py
index dca8388..d93c90e 100644
--- a/src/ucis/yaml/yaml_reader.py
+++ b/src/ucis/yaml/yaml_reader.py
@@ -15,6 +15,7 @@ from ucis.source_t import SourceT
 from ucis.ucis import UCIS
 
 import os
+import sys
 import json
 import python_jsonschema_objects as pjs
 import yaml
@@ -220,7 +221,7 @@ class YamlReader(object):
                                     cr_t_bins_m[str(b.name)] = b_t
                 
         else:
-            print("Warning: Covergroup type %s has no instances" % str(cg_t.name))
+            print("Warning: Covergroup type %s has no instances" % str(cg_t.name), file=sys.stderr)
 
         # Now, convert to UCIS
         cg_t_scope = self.cg_default_inst.createCovergroup(
-- 
2.43.0


From f115b3359186ad6e938b6a7d4d167e25fbbf349a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:58 +0000
Subject: [PATCH 22/43] fix: xml: accept dates with a fraction or time zone

---
 src/ucis/xml/xml_reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ucis/xml/xml_reader.py b/src/ucis/xml/xml_reader.py
index a8ef06f..7ce6cc4 100644
--- a/src/ucis/xml/xml_reader.py
+++ b/src/ucis/xml/xml_reader.py
@@ -480,7 +480,8 @@ class XmlReader():
     def getAttrDateTime(self, e, name):
         """Converts ISO time used by XML to the YYYYMMDDHHMMSS format used by the library"""
         val = e.get(name)
-        dateVal = datetime.strptime(val,"%Y-%m-%dT%H:%M:%S")
+        # The library records neither fractions of a second nor time zones
+        dateVal = datetime.strptime(val.strip()[:19],"%Y-%m-%dT%H:%M:%S")
         return dateVal.strftime("%Y%m%d%H%M%S")
     
     def getAttr(self, node, name, default):
-- 
2.43.0


From cbbebcee4b4f3a860f5060f36cf1a707c93a1f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:37 +0000
Subject: [PATCH 23/43] fix: lib: do not set the goal of existing scopes

---
 src/ucis/lib/lib_scope.py          | 6 ++++--
 src/ucis/lib/lib_scope_iterator.py | 2 +-
 src/ucis/lib/lib_ucis.py           | 3 ++-
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/ucis/lib/lib_scope.py b/src/ucis/lib/lib_scope.py
index 028a540..93e4900 100644
--- a/src/ucis/lib/lib_scope.py
+++ b/src/ucis/lib/lib_scope.py
@@ -44,9 +44,11 @@ from ucis.toggle_type_t import ToggleTypeT
 
 class LibScope(LibObj, Scope):
     
-    def __init__(self, db, obj):
+    def __init__(self, db, obj, existing=False):
         LibObj.__init__(self, db, obj)
-        Scope.__init__(self)
+        if not existing:
+            # Establish defaults; a scope that exists already keeps what it has
+            Scope.__init__(self)
         logging.debug("LibScope::init - db=" + str(self.db) + " " + str(self.obj))
         
     def getGoal(self)->int:
diff --git a/src/ucis/lib/lib_scope_iterator.py b/src/ucis/lib/lib_scope_iterator.py
index bb5f439..d5c3c3d 100644
--- a/src/ucis/lib/lib_scope_iterator.py
+++ b/src/ucis/lib/lib_scope_iterator.py
@@ -23,6 +23,6 @@ class LibScopeIterator(object):
             get_lib().ucis_FreeIterator(self.db, self.iter)
             raise StopIteration
         
-        return LibScope(self.db, next)
+        return LibScope(self.db, next, True)
         
         
\ No newline at end of file
diff --git a/src/ucis/lib/lib_ucis.py b/src/ucis/lib/lib_ucis.py
index 5672837..7ffb8c5 100644
--- a/src/ucis/lib/lib_ucis.py
+++ b/src/ucis/lib/lib_ucis.py
@@ -37,6 +37,7 @@ from ucis.ucis import UCIS
 class LibUCIS(LibScope,UCIS):
     
     def __init__(self, file : str=None, db=None):
+        existing = file is not None or db is not None
         if db is None:
             db = get_lib().ucis_Open(
                 str.encode(file) if file is not None else None)
@@ -46,7 +47,7 @@ class LibUCIS(LibScope,UCIS):
                     raise Exception("Error: failed to open UCIS file \"" + file + "\"")
                 else:
                     raise Exception("Error: failed to create UCIS DB")
-        super().__init__(db, None)
+        super().__init__(db, None, existing)
         
     def isModified(self):
         return get_lib().ucis_GetIntProperty(self.db, -1, IntProperty.IS_MODIFIED) == 1
-- 
2.43.0


From cd6f629ac1a7a53dc638652221b04d952bc4f82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:37 +0000
Subject: [PATCH 24/43] fix: lib: create history nodes with a parent, and
 without a physical name

---
 src/ucis/lib/lib_ucis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ucis/lib/lib_ucis.py b/src/ucis/lib/lib_ucis.py
index 7ffb8c5..6f27ddb 100644
--- a/src/ucis/lib/lib_ucis.py
+++ b/src/ucis/lib/lib_ucis.py
@@ -84,9 +84,9 @@ class LibUCIS(LibScope,UCIS):
         
         hn = get_lib().ucis_CreateHistoryNode(
             self.db,
-            parent,
+            None if parent is None else parent.obj,
             str.encode(logicalname),
-            str.encode(physicalname),
+            None if physicalname is None else str.encode(physicalname),
             kind)
         logging.debug("hn=" + str(hn))
         logging.debug("<-- createHistoryNode")
-- 
2.43.0


From bc6e7c70b732e8de6cfed7cb15f7be3d35875989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:37 +0000
Subject: [PATCH 25/43] fix: lib: pass test data as the C API defines it, and
 read it back

---
 src/ucis/lib/lib_history_node.py |  6 +--
 src/ucis/lib/lib_test_data.py    | 78 +++++++++++++-------------------
 2 files changed, 35 insertions(+), 49 deletions(-)

diff --git a/src/ucis/lib/lib_history_node.py b/src/ucis/lib/lib_history_node.py
index b3630f5..cfd7ef3 100644
--- a/src/ucis/lib/lib_history_node.py
+++ b/src/ucis/lib/lib_history_node.py
@@ -30,12 +30,12 @@ class LibHistoryNode(LibObj, HistoryNode):
             lib_td)
         
     def getTestData(self):
-        lib_td = pointer(LibTestData())
+        lib_td = LibTestData()
         
-        get_lib().ucis_SetTestData(
+        get_lib().ucis_GetTestData(
             self.db,
             self.obj,
-            lib_td)
+            pointer(lib_td))
         
         return lib_td.to_testdata()
     
diff --git a/src/ucis/lib/lib_test_data.py b/src/ucis/lib/lib_test_data.py
index 6be02d4..5cc3f95 100644
--- a/src/ucis/lib/lib_test_data.py
+++ b/src/ucis/lib/lib_test_data.py
@@ -5,24 +5,25 @@ Created on Mar 12, 2020
 '''
 
 from _ctypes import Structure
-from ctypes import c_int, c_ulonglong, c_uint, c_wchar_p, c_double, c_wchar
+from ctypes import c_int, c_ulonglong, c_uint, c_char_p, c_double
 from ucis.test_data import TestData
+from ucis.test_status_t import TestStatusT
 
 class LibTestData(Structure):
     _fields_ = [
         ("teststatus", c_uint),
         ("simtime", c_double),
-        ("timeunit", c_wchar_p),
-        ("runcwd", c_wchar_p),
+        ("timeunit", c_char_p),
+        ("runcwd", c_char_p),
         ("cputime", c_double),
-        ("seed", c_wchar_p),
-        ("cmd", c_wchar_p),
-        ("args", c_wchar_p),
+        ("seed", c_char_p),
+        ("cmd", c_char_p),
+        ("args", c_char_p),
         ("compulsory", c_int),
-        ("date", c_wchar_p),
-        ("username", c_wchar_p),
+        ("date", c_char_p),
+        ("username", c_char_p),
         ("cost", c_double),
-        ("toolcategory", c_wchar_p)
+        ("toolcategory", c_char_p)
     ]
 
     @staticmethod
@@ -31,53 +32,38 @@ class LibTestData(Structure):
         ret = LibTestData(
             td.teststatus,
             td.simtime,
-            td.timeunit,
-            td.runcwd,
+            None if td.timeunit is None else str.encode(td.timeunit),
+            None if td.runcwd is None else str.encode(td.runcwd),
             td.cputime,
-            td.seed,
-            td.cmd,
-            td.args,
+            None if td.seed is None else str.encode(td.seed),
+            None if td.cmd is None else str.encode(td.cmd),
+            None if td.args is None else str.encode(td.args),
             td.compulsory,
-            td.date,
-            td.user,
+            None if td.date is None else str.encode(td.date),
+            None if td.user is None else str.encode(td.user),
             td.cost,
-            td.toolcategory
-            )        
-        
-#         ret = LibTestData(
-#             td.teststatus,
-#             td.simtime,
-#             None if td.timeunit is None else str.encode(td.timeunit),
-#             None if td.runcwd is None else str.encode(td.runcwd),
-#             td.cputime,
-#             None if td.seed is None else str.encode(td.seed),
-#             None if td.cmd is None else str.encode(td.cmd),
-#             None if td.args is None else str.encode(td.args),
-#             td.compulsory,
-#             None if td.date is None else str.encode(td.date),
-#             None if td.user is None else str.encode(td.user),
-#             td.cost,
-#             None if td.toolcategory is None else str.encode(td.toolcategory)
-#             )
+            None if td.toolcategory is None else str.encode(td.toolcategory)
+            )
         
         return ret
    
     def to_testdata(self):
+        def text(v):
+            return None if v is None else v.decode()
+        
         ret = TestData(
-            self.teststatus,
+            TestStatusT(self.teststatus),
+            text(self.toolcategory),
+            text(self.date),
             self.simtime,
-            self.timeunit,
-            self.runcwd,
+            text(self.timeunit),
+            text(self.runcwd),
             self.cputime,
-            self.seed,
-            self.cmd,
-            self.args,
+            text(self.seed),
+            text(self.cmd),
+            text(self.args),
             self.compulsory,
-            self.date,
-            self.username,
-            self.cost,
-            self.toolcategory)
+            text(self.username),
+            self.cost)
         
         return ret
-
-    
\ No newline at end of file
-- 
2.43.0


From 6f0e8883e9293e3beb7f024b4f88c2a9d2f77b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:37 +0000
Subject: [PATCH 26/43] fix: lib: iterate over the history nodes

---
 src/ucis/lib/lib_history_node_iterator.py | 2 +-
 src/ucis/lib/lib_ucis.py                  | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ucis/lib/lib_history_node_iterator.py b/src/ucis/lib/lib_history_node_iterator.py
index 9a792d1..3b38313 100644
--- a/src/ucis/lib/lib_history_node_iterator.py
+++ b/src/ucis/lib/lib_history_node_iterator.py
@@ -20,7 +20,7 @@ class LibHistoryNodeIterator(object):
         next = get_lib().ucis_HistoryScan(self.db, self.iter)
         
         if next is None:
-            get_lib().ucis_FreeIterator(self.iter)
+            get_lib().ucis_FreeIterator(self.db, self.iter)
             raise StopIteration
         
         return LibHistoryNode(self.db, next)
diff --git a/src/ucis/lib/lib_ucis.py b/src/ucis/lib/lib_ucis.py
index 6f27ddb..28cfd77 100644
--- a/src/ucis/lib/lib_ucis.py
+++ b/src/ucis/lib/lib_ucis.py
@@ -29,6 +29,7 @@ from ucis.history_node_kind import HistoryNodeKind
 from ucis.int_property import IntProperty
 from ucis.lib.lib_file_handle import LibFileHandle
 from ucis.lib.lib_history_node import LibHistoryNode
+from ucis.lib.lib_history_node_iterator import LibHistoryNodeIterator
 from ucis.lib.lib_scope import LibScope
 from ucis.lib.libucis import _lib, get_ucis_library, get_lib
 from ucis.ucis import UCIS
@@ -94,10 +95,10 @@ class LibUCIS(LibScope,UCIS):
     
     def getHistoryNodes(self, kind:HistoryNodeKind)->List[HistoryNode]:
         
-        UCIS.getHistoryNodes(self, kind)
+        return UCIS.getHistoryNodes(self, kind)
         
     def historyNodes(self, kind:HistoryNodeKind)->Iterator[HistoryNode]:
-        UCIS.historyNodes(self, kind)
+        return LibHistoryNodeIterator(self.db, None, kind)
         
     def write(self, file, scope=None, recurse=True, covertype=-1):
         logging.debug("file=" + file)
-- 
2.43.0


From b1546842c369c50487168159731d09ac9c6a0214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:37 +0000
Subject: [PATCH 27/43] fix: lib: return file names as strings

---
 src/ucis/lib/lib_file_handle.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ucis/lib/lib_file_handle.py b/src/ucis/lib/lib_file_handle.py
index 36a5b06..fc63859 100644
--- a/src/ucis/lib/lib_file_handle.py
+++ b/src/ucis/lib/lib_file_handle.py
@@ -32,4 +32,5 @@ class LibFileHandle(FileHandle):
         self.fh = fh
         
     def getFileName(self)->str:
-        return get_lib().ucis_GetFileName(self.db, self.fh)
\ No newline at end of file
+        name = get_lib().ucis_GetFileName(self.db, self.fh)
+        return None if name is None else name.decode()
\ No newline at end of file
-- 
2.43.0


From 814300f76f370f7b557ced74f45653576c229627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:37 +0000
Subject: [PATCH 28/43] fix: lib: accept source information without a file

---
 src/ucis/lib/lib_source_info.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ucis/lib/lib_source_info.py b/src/ucis/lib/lib_source_info.py
index 2b029de..c9802f2 100644
--- a/src/ucis/lib/lib_source_info.py
+++ b/src/ucis/lib/lib_source_info.py
@@ -37,7 +37,7 @@ class _LibSourceInfo(Structure):
     @staticmethod
     def ctor(srcinfo : SourceInfo):
         return _LibSourceInfo(
-            srcinfo.file.fh,
+            None if srcinfo.file is None else srcinfo.file.fh,
             srcinfo.line,
             srcinfo.token)
         
@@ -45,11 +45,14 @@ class LibSourceInfo(SourceInfo):
     
     def __init__(self, file : LibFileHandle, line : int, token : int):
         SourceInfo.__init__(self, file, line, token)
-        self.obj = _LibSourceInfo(file.fh, line, token)
+        self.obj = _LibSourceInfo(None if file is None else file.fh, line, token)
 
     @staticmethod
     def ctor(db, libsrcinfo : _LibSourceInfo):
-        return LibSourceInfo(LibFileHandle(db, libsrcinfo.filehandle), libsrcinfo.line, libsrcinfo.token)
+        file = None
+        if libsrcinfo.filehandle is not None:
+            file = LibFileHandle(db, libsrcinfo.filehandle)
+        return LibSourceInfo(file, libsrcinfo.line, libsrcinfo.token)
     
 
         
\ No newline at end of file
-- 
2.43.0


From ce35bf7f866d90a0667d945c9f5562a6e21f15d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:37 +0000
Subject: [PATCH 29/43] fix: lib: do not truncate counts of more than 32 bits

---
 src/ucis/lib/lib_coverpoint.py | 4 ++--
 src/ucis/lib/lib_cross.py      | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ucis/lib/lib_coverpoint.py b/src/ucis/lib/lib_coverpoint.py
index d0baaaa..de650c0 100644
--- a/src/ucis/lib/lib_coverpoint.py
+++ b/src/ucis/lib/lib_coverpoint.py
@@ -3,7 +3,7 @@ Created on Mar 12, 2020
 
 @author: ballance
 '''
-from ucis import UCIS_CVGBIN, UCIS_IS_32BIT, UCIS_HAS_GOAL, UCIS_HAS_WEIGHT
+from ucis import UCIS_CVGBIN, UCIS_IS_32BIT, UCIS_IS_64BIT, UCIS_HAS_GOAL, UCIS_HAS_WEIGHT
 from ucis.cover_data import CoverData
 from ucis.coverpoint import Coverpoint
 from ucis.lib.lib_scope import LibScope
@@ -29,7 +29,7 @@ class LibCoverpoint(LibCvgScope, Coverpoint):
         kind=UCIS_CVGBIN) -> CoverIndex:
         coverdata = CoverData(
             kind,
-            (UCIS_IS_32BIT|UCIS_HAS_GOAL|UCIS_HAS_WEIGHT))
+            ((UCIS_IS_32BIT if count < (1 << 32) else UCIS_IS_64BIT)|UCIS_HAS_GOAL|UCIS_HAS_WEIGHT))
         coverdata.data = count
         coverdata.at_least = at_least
         coverdata.goal = 1
diff --git a/src/ucis/lib/lib_cross.py b/src/ucis/lib/lib_cross.py
index 9e4ef5a..24904d9 100644
--- a/src/ucis/lib/lib_cross.py
+++ b/src/ucis/lib/lib_cross.py
@@ -3,7 +3,7 @@ Created on Feb 1, 2021
 
 @author: mballance
 '''
-from ucis import UCIS_CVGBIN, UCIS_IS_32BIT, UCIS_HAS_GOAL, UCIS_HAS_WEIGHT
+from ucis import UCIS_CVGBIN, UCIS_IS_32BIT, UCIS_IS_64BIT, UCIS_HAS_GOAL, UCIS_HAS_WEIGHT
 from ucis.cover_data import CoverData
 from ucis.cover_index import CoverIndex
 from ucis.cross import Cross
@@ -26,7 +26,7 @@ class LibCross(LibCvgScope, Cross):
         binrhs) -> CoverIndex:
         coverdata = CoverData(
             UCIS_CVGBIN,
-            (UCIS_IS_32BIT|UCIS_HAS_GOAL|UCIS_HAS_WEIGHT))
+            ((UCIS_IS_32BIT if count < (1 << 32) else UCIS_IS_64BIT)|UCIS_HAS_GOAL|UCIS_HAS_WEIGHT))
         coverdata.data = count
         coverdata.at_least = at_least
         coverdata.goal = 1
-- 
2.43.0


From 987ba449db1718ad8b19ae05ee5a5df300394717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:37 +0000
Subject: [PATCH 30/43] fix: lib: pass all 64 bits of scope masks

---
 src/ucis/lib/libucis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ucis/lib/libucis.py b/src/ucis/lib/libucis.py
index 52e0aad..d171067 100644
--- a/src/ucis/lib/libucis.py
+++ b/src/ucis/lib/libucis.py
@@ -98,7 +98,7 @@ fspec = {
         CFUNCTYPE(c_void_p, c_void_p, c_void_p),
         ((1,"db"), (1,"iterator"))),
     "ucis_ScopeIterate" : (
-        CFUNCTYPE(c_void_p, c_void_p, c_void_p, c_uint32),
+        CFUNCTYPE(c_void_p, c_void_p, c_void_p, c_uint64),
         ((1,"db"), (1,"scope"), (1,"scopemask"))),
     "ucis_ScopeScan" : (
         CFUNCTYPE(c_void_p, c_void_p, c_void_p),
-- 
2.43.0


From d4b9eefa81706e8afeffaed0e6e115c82d69929c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:38 +0000
Subject: [PATCH 31/43] fix: lib: write a scope of a database

---
 src/ucis/lib/lib_ucis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ucis/lib/lib_ucis.py b/src/ucis/lib/lib_ucis.py
index 28cfd77..55fe057 100644
--- a/src/ucis/lib/lib_ucis.py
+++ b/src/ucis/lib/lib_ucis.py
@@ -105,7 +105,7 @@ class LibUCIS(LibScope,UCIS):
         ret = get_lib().ucis_Write(
             self.db, 
             str.encode(file),
-            scope,
+            None if scope is None else scope.obj,
             1 if recurse else 0,
             covertype)
         logging.debug("ret=" + str(ret))
-- 
2.43.0


From 31f1c83d17593de45e42d504bc8666d7b25decae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:38 +0000
Subject: [PATCH 32/43] fix: lib: create ignore and illegal bins of crosses

---
 src/ucis/lib/lib_cross.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ucis/lib/lib_cross.py b/src/ucis/lib/lib_cross.py
index 24904d9..746211b 100644
--- a/src/ucis/lib/lib_cross.py
+++ b/src/ucis/lib/lib_cross.py
@@ -23,9 +23,10 @@ class LibCross(LibCvgScope, Cross):
         srcinfo:SourceInfo, 
         at_least:int, 
         count:int,
-        binrhs) -> CoverIndex:
+        binrhs,
+        kind=UCIS_CVGBIN) -> CoverIndex:
         coverdata = CoverData(
-            UCIS_CVGBIN,
+            kind,
             ((UCIS_IS_32BIT if count < (1 << 32) else UCIS_IS_64BIT)|UCIS_HAS_GOAL|UCIS_HAS_WEIGHT))
         coverdata.data = count
         coverdata.at_least = at_least
-- 
2.43.0


From f59f79cfe81a5eb2da148f082efb0d22bf86295f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:38 +0000
Subject: [PATCH 33/43] fix: lib: use the library that is loaded for the
 libucis format

---
 src/ucis/lib/db_format_if_lib.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ucis/lib/db_format_if_lib.py b/src/ucis/lib/db_format_if_lib.py
index 78ae51c..598ab9f 100644
--- a/src/ucis/lib/db_format_if_lib.py
+++ b/src/ucis/lib/db_format_if_lib.py
@@ -35,7 +35,8 @@ class DbFormatIfLib(FormatIfDb):
         raise NotImplementedError("DbFormatIf.write not implemented by %s" % str(type(self)))
     
     def _get_lib(self):
-        pass
+        from ucis.lib.libucis import get_ucis_library
+        return get_ucis_library()
     
     @staticmethod
     def register(rgy):
-- 
2.43.0


From 9363566a2afa972450c63959b155eb45a0c14271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:10 +0000
Subject: [PATCH 34/43] fix: lib: report what the library fails to create, set
 or write

---
 src/ucis/lib/lib_covergroup.py   |  6 +++++-
 src/ucis/lib/lib_history_node.py | 10 ++++++++--
 src/ucis/lib/lib_scope.py        | 10 ++++++++++
 src/ucis/lib/lib_ucis.py         |  7 +++++++
 4 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/src/ucis/lib/lib_covergroup.py b/src/ucis/lib/lib_covergroup.py
index 5cabbda..272af12 100644
--- a/src/ucis/lib/lib_covergroup.py
+++ b/src/ucis/lib/lib_covergroup.py
@@ -85,8 +85,10 @@ class LibCovergroup(LibCvgScope, Covergroup):
             len(points_l),
             byref(points))
         
+        if cr_o is None:
+            raise Exception("Failed to create cross \"" + name + "\"")
+        
         return LibCross(self.db, cr_o)
-        raise NotImplementedError()
     
     def createCoverInstance(
             self,
@@ -106,5 +108,7 @@ class LibCovergroup(LibCvgScope, Covergroup):
             UCIS_COVERINSTANCE,
             0)
         
+        if ci_obj is None:
+            raise Exception("Failed to create coverinstance \"" + name + "\"")
         
         return LibCovergroup(self.db, ci_obj)
diff --git a/src/ucis/lib/lib_history_node.py b/src/ucis/lib/lib_history_node.py
index cfd7ef3..480b3b2 100644
--- a/src/ucis/lib/lib_history_node.py
+++ b/src/ucis/lib/lib_history_node.py
@@ -24,19 +24,25 @@ class LibHistoryNode(LibObj, HistoryNode):
     def setTestData(self, testdata:TestData):
         lib_td = pointer(LibTestData.ctor(testdata))
         
-        get_lib().ucis_SetTestData(
+        ret = get_lib().ucis_SetTestData(
             self.db,
             self.obj,
             lib_td)
         
+        if ret != 0:
+            raise Exception("Failed to set test data")
+        
     def getTestData(self):
         lib_td = LibTestData()
         
-        get_lib().ucis_GetTestData(
+        ret = get_lib().ucis_GetTestData(
             self.db,
             self.obj,
             pointer(lib_td))
         
+        if ret != 0:
+            raise Exception("Failed to get test data")
+        
         return lib_td.to_testdata()
     
     def getTestStatus(self) -> TestStatusT:
diff --git a/src/ucis/lib/lib_scope.py b/src/ucis/lib/lib_scope.py
index 93e4900..40e45c6 100644
--- a/src/ucis/lib/lib_scope.py
+++ b/src/ucis/lib/lib_scope.py
@@ -134,6 +134,9 @@ class LibScope(LibObj, Scope):
             ScopeTypeT.COVERGROUP,
             0)
         
+        if cg_obj is None:
+            raise Exception("Failed to create covergroup \"" + name + "\"")
+        
         return LibCovergroup(self.db, cg_obj)
     
     def createToggle(self,
@@ -152,6 +155,10 @@ class LibScope(LibObj, Scope):
             toggle_metric,
             toggle_type,
             toggle_dir)
+        
+        if th is None:
+            raise Exception("Failed to create toggle \"" + name + "\"")
+        
         return LibScope(self.db, th)
     
     def createNextCover(self,
@@ -168,6 +175,9 @@ class LibScope(LibObj, Scope):
             data_p,
             sourceinfo_p)
         
+        if index < 0:
+            raise Exception("Failed to create cover item \"" + name + "\"")
+        
         return LibCoverIndex(self.db, self.obj, index)
     
     def getSourceInfo(self)->SourceInfo:
diff --git a/src/ucis/lib/lib_ucis.py b/src/ucis/lib/lib_ucis.py
index 55fe057..3d05f54 100644
--- a/src/ucis/lib/lib_ucis.py
+++ b/src/ucis/lib/lib_ucis.py
@@ -72,6 +72,9 @@ class LibUCIS(LibScope,UCIS):
             str.encode(filename),
             None if workdir is None else str.encode(workdir))
         
+        if fh is None:
+            raise Exception("Failed to create file handle \"" + filename + "\"")
+        
         return LibFileHandle(self.db, fh)
         
     
@@ -90,6 +93,8 @@ class LibUCIS(LibScope,UCIS):
             None if physicalname is None else str.encode(physicalname),
             kind)
         logging.debug("hn=" + str(hn))
+        if hn is None:
+            raise Exception("Failed to create history node \"" + logicalname + "\"")
         logging.debug("<-- createHistoryNode")
         return LibHistoryNode(self.db, hn)
     
@@ -109,6 +114,8 @@ class LibUCIS(LibScope,UCIS):
             1 if recurse else 0,
             covertype)
         logging.debug("ret=" + str(ret))
+        if ret != 0:
+            raise Exception("Failed to write \"" + file + "\"")
         
     def close(self):
         ret = get_lib().ucis_Close(self.db)
-- 
2.43.0


From 1a218dc27bd98ed4b1197667723b84866702e230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:16 +0000
Subject: [PATCH 35/43] fix: lib: number the test status as the C API does

---
 src/ucis/lib/lib_history_node.py | 2 +-
 src/ucis/lib/lib_test_data.py    | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ucis/lib/lib_history_node.py b/src/ucis/lib/lib_history_node.py
index 480b3b2..a163793 100644
--- a/src/ucis/lib/lib_history_node.py
+++ b/src/ucis/lib/lib_history_node.py
@@ -49,6 +49,6 @@ class LibHistoryNode(LibObj, HistoryNode):
         return self.getIntProperty(-1, UCIS_INT_TEST_STATUS)
     
     def setTestStatus(self, status : TestStatusT):
-        self.setIntProperty(-1, UCIS_INT_TEST_STATUS, status)
+        self.setIntProperty(-1, UCIS_INT_TEST_STATUS, status - TestStatusT.OK)
     
         
diff --git a/src/ucis/lib/lib_test_data.py b/src/ucis/lib/lib_test_data.py
index 5cc3f95..c6a68a4 100644
--- a/src/ucis/lib/lib_test_data.py
+++ b/src/ucis/lib/lib_test_data.py
@@ -30,7 +30,7 @@ class LibTestData(Structure):
     def ctor(td : TestData):
         
         ret = LibTestData(
-            td.teststatus,
+            td.teststatus - TestStatusT.OK, # the C API counts from 0
             td.simtime,
             None if td.timeunit is None else str.encode(td.timeunit),
             None if td.runcwd is None else str.encode(td.runcwd),
@@ -52,7 +52,7 @@ class LibTestData(Structure):
             return None if v is None else v.decode()
         
         ret = TestData(
-            TestStatusT(self.teststatus),
+            TestStatusT(self.teststatus + TestStatusT.OK),
             text(self.toolcategory),
             text(self.date),
             self.simtime,
-- 
2.43.0


From a9589cf615c08d3c1dbc46b734361c1b9bf0ebad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:57 +0000
Subject: [PATCH 36/43] fix: report: directory formats write to a directory
 that exists or not

---
 src/ucis/cmd/cmd_report.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ucis/cmd/cmd_report.py b/src/ucis/cmd/cmd_report.py
index 3bc2051..a399e29 100644
--- a/src/ucis/cmd/cmd_report.py
+++ b/src/ucis/cmd/cmd_report.py
@@ -46,13 +46,13 @@ def report(args):
                 if os.path.isdir(args.out):
                     print("Note: removing existing report directory (%s)" % args.out)
                     shutil.rmtree(args.out)
-                    os.makedirs(args.out)
-                    fp = args.out
                 else:
-                    raise Exception("Output format %s requires a directory, but specified destination is a file" % (
+                    raise Exception("Output format %s requires a directory, but specified destination %s is a file" % (
                         args.output_format,
                         args.out
                     ))
+            os.makedirs(args.out)
+            fp = args.out
         else:
             raise Exception("Output format %s is ambiguous about output location: %s" % (
                 args.output_format,
@@ -62,7 +62,7 @@ def report(args):
 
     output_if.report(in_db, fp, [])
 
-    if args.out is not None:
+    if args.out is not None and fp is not args.out:
         fp.close()
 
     in_db.close()
-- 
2.43.0


From 533af01a416149f8fcd44277040b6b7e9e229a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:30 +0000
Subject: [PATCH 37/43] fix: the items of a scope start at 0

---
 src/ucis/mem/mem_instance_scope.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ucis/mem/mem_instance_scope.py b/src/ucis/mem/mem_instance_scope.py
index ddfba52..a66156b 100644
--- a/src/ucis/mem/mem_instance_scope.py
+++ b/src/ucis/mem/mem_instance_scope.py
@@ -84,6 +84,8 @@ class MemInstanceScope(MemScope,InstanceScope):
         return ret
     
     def getIthCoverItem(self, i)->CoverItem:
+        if i < 0:
+            raise IndexError("No cover item " + str(i))
         return self.m_cover_item_l[i]
    
     
\ No newline at end of file
-- 
2.43.0


From 8e05082e494acb86789d34398855010321e7cd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:00 +0000
Subject: [PATCH 38/43] fix: lib: an iterator at its end stays there

---
 src/ucis/lib/lib_history_node_iterator.py | 5 +++++
 src/ucis/lib/lib_scope_iterator.py        | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/ucis/lib/lib_history_node_iterator.py b/src/ucis/lib/lib_history_node_iterator.py
index 3b38313..03c0613 100644
--- a/src/ucis/lib/lib_history_node_iterator.py
+++ b/src/ucis/lib/lib_history_node_iterator.py
@@ -17,10 +17,15 @@ class LibHistoryNodeIterator(object):
         return self
     
     def __next__(self):
+        if self.iter is None:
+            # Freed at the end
+            raise StopIteration
+        
         next = get_lib().ucis_HistoryScan(self.db, self.iter)
         
         if next is None:
             get_lib().ucis_FreeIterator(self.db, self.iter)
+            self.iter = None
             raise StopIteration
         
         return LibHistoryNode(self.db, next)
diff --git a/src/ucis/lib/lib_scope_iterator.py b/src/ucis/lib/lib_scope_iterator.py
index d5c3c3d..513b30c 100644
--- a/src/ucis/lib/lib_scope_iterator.py
+++ b/src/ucis/lib/lib_scope_iterator.py
@@ -16,11 +16,16 @@ class LibScopeIterator(object):
         return self
     
     def __next__(self):
+        if self.iter is None:
+            # Freed at the end
+            raise StopIteration
+        
         from .lib_scope import LibScope
         next = get_lib().ucis_ScopeScan(self.db, self.iter)
         
         if next is None:
             get_lib().ucis_FreeIterator(self.db, self.iter)
+            self.iter = None
             raise StopIteration
         
         return LibScope(self.db, next, True)
-- 
2.43.0


From 9fdd56603fd3275881797f8cc7c6be4ca4faefb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:26 +0000
Subject: [PATCH 39/43] fix: find the coverpoints that a cross names in XML by
 their exact names

---
 src/ucis/xml/xml_reader.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ucis/xml/xml_reader.py b/src/ucis/xml/xml_reader.py
index 7ce6cc4..1d6b116 100644
--- a/src/ucis/xml/xml_reader.py
+++ b/src/ucis/xml/xml_reader.py
@@ -252,7 +252,7 @@ class XmlReader():
                 if cp_name not in cr_m.keys():
                     cp_l = []
                     for crossExpr in cr_e.iter("crossExpr"):
-                        cp_n = crossExpr.text.strip()
+                        cp_n = self.getCrossedName(crossExpr, cp_m)
                         logging.debug("cp_n=\"" + cp_n + "\"")
                         if cp_n in cp_m.keys():
                             cp_l.append(cp_m[cp_n][0])
@@ -290,6 +290,12 @@ class XmlReader():
 
         pass
                 
+    def getCrossedName(self, crossExpr, cp_m) -> str:
+        """Name of a crossed coverpoint: the text as it is or, if there
+        is no such coverpoint, without the blanks around it"""
+        text = crossExpr.xpath("string()")
+        return text if text in cp_m.keys() else text.strip()
+    
     def readCoverpointInst(self, cg_i, cp_e, cp_type_i):
         srcinfo = None
         
@@ -363,7 +369,7 @@ class XmlReader():
         
         cp_l = []
         for crossExpr in cr_e.iter("crossExpr"):
-            cp_n = crossExpr.text.strip()
+            cp_n = self.getCrossedName(crossExpr, cp_m)
             logging.debug("cp_n=\"" + cp_n + "\"")
             if cp_n in cp_m.keys():
                 cp_l.append(cp_m[cp_n])
-- 
2.43.0


From 733eca520554610b5465e0e2d9a735a0410394fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:14 +0000
Subject: [PATCH 40/43] fix: read XML files in the encoding they declare, not
 that of the locale

---
 src/ucis/xml/__init__.py    | 2 +-
 src/ucis/xml/xml_factory.py | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ucis/xml/__init__.py b/src/ucis/xml/__init__.py
index a5d41a2..15b7456 100644
--- a/src/ucis/xml/__init__.py
+++ b/src/ucis/xml/__init__.py
@@ -39,7 +39,7 @@ def validate_ucis_xml(file_or_filename):
     
     if type(file_or_filename) == str:
         logging.debug("open file")
-        fp = open(file_or_filename, "r")
+        fp = open(file_or_filename, "rb")
     else:
         fp = file_or_filename
         
diff --git a/src/ucis/xml/xml_factory.py b/src/ucis/xml/xml_factory.py
index 559cab3..3eee20d 100644
--- a/src/ucis/xml/xml_factory.py
+++ b/src/ucis/xml/xml_factory.py
@@ -39,16 +39,16 @@ class XmlFactory():
             except ImportError:
                 logging.fatal("Cannot read gzip compressed files since module gzip is not available")
             else:
-                return gzip.open(file_path, 'rt')
+                return gzip.open(file_path, 'rb')
         elif magic0 == b'\x04\x22' and magic1 == b'\x4d\x18':
             try:
                 import lz4.frame
             except ImportError:
                 logging.fatal("Cannot read LZ4 compressed files since module lz4.frame is not available")
             else:
-                return lz4.frame.open(file_path, 'rt')
+                return lz4.frame.open(file_path, 'rb')
         else:
-            return open(file_path, "r")
+            return open(file_path, "rb")
 
     @staticmethod
     def read(file_or_filename) -> UCIS:
-- 
2.43.0


From 24ed1e08020bb371851ceab33f683ed79ed25b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:14 +0000
Subject: [PATCH 41/43] fix: write XML files in UTF-8 whatever the locale

---
 src/ucis/xml/xml_factory.py | 2 +-
 src/ucis/xml/xml_ucis.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ucis/xml/xml_factory.py b/src/ucis/xml/xml_factory.py
index 3eee20d..77619fd 100644
--- a/src/ucis/xml/xml_factory.py
+++ b/src/ucis/xml/xml_factory.py
@@ -89,7 +89,7 @@ class XmlFactory():
             buf = StringIO()
             writer.write(buf, db)
             
-            with open(file_or_filename, "w") as fp:
+            with open(file_or_filename, "w", encoding="utf-8") as fp:
                 fp.write(buf.getvalue())
         else:
             writer.write(file_or_filename, db)
diff --git a/src/ucis/xml/xml_ucis.py b/src/ucis/xml/xml_ucis.py
index da0ec36..4a149a3 100644
--- a/src/ucis/xml/xml_ucis.py
+++ b/src/ucis/xml/xml_ucis.py
@@ -13,5 +13,5 @@ class XmlUCIS(MemUCIS):
         buf = StringIO()
         writer.write(buf, self)
 
-        with open(file, "w") as fp:
+        with open(file, "w", encoding="utf-8") as fp:
             fp.write(buf.getvalue())
-- 
2.43.0


From c8cf40fe1a294a3c71001f997012156f7392fc31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:14 +0000
Subject: [PATCH 42/43] fix: read YAML files in their own encoding, not that of
 the locale

---
 src/ucis/yaml/db_format_if_yaml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ucis/yaml/db_format_if_yaml.py b/src/ucis/yaml/db_format_if_yaml.py
index 1a3213d..1e6e7c5 100644
--- a/src/ucis/yaml/db_format_if_yaml.py
+++ b/src/ucis/yaml/db_format_if_yaml.py
@@ -18,7 +18,7 @@ class DbFormatIfYaml(FormatIfDb):
     def read(self, filename) -> 'UCIS':
         reader = YamlReader()
 
-        with open(filename, "r") as fp:
+        with open(filename, "rb") as fp:
             db = reader.load(fp)
 
         return db
-- 
2.43.0


From b04bc525141775457adc0b599d1591179c0b29d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:59 +0000
Subject: [PATCH 43/43] fix: leave an existing file alone if a report cannot be
 written

---
 src/ucis/cmd/cmd_report.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ucis/cmd/cmd_report.py b/src/ucis/cmd/cmd_report.py
index a399e29..dc97de6 100644
--- a/src/ucis/cmd/cmd_report.py
+++ b/src/ucis/cmd/cmd_report.py
@@ -6,6 +6,7 @@ Created on Jun 22, 2022
 import os
 import shutil
 import sys
+from io import StringIO
 from ucis.rgy.format_if_db import FormatIfDb
 from ucis.rgy.format_if_rpt import FormatIfRpt, FormatRptOutFlags
 from ucis.rgy.format_rgy import FormatRgy
@@ -40,7 +41,7 @@ def report(args):
         fp = sys.stdout
     else:
         if (output_desc.out_flags & FormatRptOutFlags.Stream) != 0:
-            fp = open(args.out, "w")
+            fp = StringIO()
         elif (output_desc.out_flags & FormatRptOutFlags.Dir) != 0:
             if os.path.exists(args.out):
                 if os.path.isdir(args.out):
@@ -63,6 +64,11 @@ def report(args):
     output_if.report(in_db, fp, [])
 
     if args.out is not None and fp is not args.out:
-        fp.close()
+        # Leave an existing file alone if the report cannot be encoded
+        text = fp.getvalue()
+        text.encode("utf-8")
+
+        with open(args.out, "w", encoding="utf-8") as out_fp:
+            out_fp.write(text)
 
     in_db.close()
-- 
2.43.0

