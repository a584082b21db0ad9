#!/usr/bin/env python3
"""Writes properties.jsonl (kept here in a readable form)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

MERGE="src/ucis/merge/db_merger.py"; REP="src/ucis/report/coverage_report_builder.py"
XW="src/ucis/xml/xml_writer.py"; XR="src/ucis/xml/xml_reader.py"; YR="src/ucis/yaml/yaml_reader.py"
MS="src/ucis/mem/mem_scope.py"

prop("C01","Merging adds up the hits of every bin",
 "The merge of a list of databases contains exactly the instances, covergroups, covergroup instances, coverpoints and crosses that occur (by name) in at least one of them, each once, and within each coverpoint and cross exactly the bins (by name and kind: regular, ignore, illegal) that occur in at least one of them, each once. The hit count of every merged bin is the exact sum of its counts over all the sources, whatever their size. No hit is lost, counted twice or credited to another bin, instance or covergroup.",
 ["inputs"],"every list of one or more databases (including overlapping, disjoint and empty ones, the same database more than once, and same-named scopes within one database) whose crosses find their coverpoints",
 "test_merge.py merges at most three small databases that share one shape and checks percentages, not counts; overlap patterns, bin kinds, cross bins, many sources and large counts are not sampled.",
 [MERGE],[("scopes matched by name at each level","DbMerger.merge, _merge_covergroups, _merge_coverinsts, _merge_coverpoints, _merge_crosses"),("counts added per bin kind and name","DbMerger._merge_coverpoint_bins, _merge_cross")],
 [("bins of the destination","name, kind and count of each cover item","MemScope.coverItems")],["destination database, through scopes() and coverItems()"])
prop("C02","The result of a merge does not depend on order or grouping",
 "Merging the same databases in any order, or merging some of them first and then merging the results, produces the same scopes, bins and hit counts as merging them all at once. Merging a single database reproduces its scopes, bins and counts. A merger object can be used for any number of merges, and each gives the result a new one would.",
 ["inputs","histories"],"every list of databases, every permutation of it and every way of grouping it into intermediate merges",
 "The tests compare no two merges; order and grouping are quantifiers over pairs of histories.",
 [MERGE],[("first-appearance name lists and per-name sums","DbMerger.*"),("merge result is itself a database that can be merged","DbMerger.merge")],
 None,["destination databases of the different merges"])
prop("C03","Merging keeps weights, goals, cross structure and order",
 "In a merged database every covergroup, covergroup instance, coverpoint and cross has the weight, and every bin the kind and at_least, that it has in the first source it occurs in, every scope has the source information from its first source, and every instance refers to a design unit with the name, weight and source information of the one in its first source. Every cross refers to the same-named coverpoints of its own merged covergroup (instance), in the order of the first source. Scopes of the same type, and bins of the same kind, appear in order of first appearance over the sources.",
 ["inputs"],"every list of databases, with weights and at_least values of 0, 1 and more, crosses over repeated or reordered coverpoints, and sources in which scopes appear in different orders",
 "The tests use weight 1 and at_least 1 nearly everywhere, so a merge that drops or swaps them still passes.",
 [MERGE],[("destination scopes created from the first source","DbMerger._merge_*"),("cross coverpoints looked up by name among the merged ones","DbMerger._merge_crosses")],
 None,["destination database"])
prop("C04","A merge leaves its sources alone and shares nothing with them",
 "Merging changes nothing in any source database. Hits, weights and scopes later added to a source do not show up in the merged database, nor the other way round, nor in another merge of the same sources.",
 ["histories"],"every sequence of merges, hits and modifications of sources and results, in any order",
 "No test looks at a source after a merge or modifies anything afterwards.",
 [MERGE,"src/ucis/mem/mem_cover_index.py"],[("new scopes and cover data created in the destination","DbMerger._merge_*")],
 None,["all databases, before and after each operation"])

prop("C05","Reported percentages are what the bins, at_least and weights imply",
 "In the coverage report the percentage of a coverpoint or cross is the share of its regular bins that have at least at_least hits (0 if it has none); ignore and illegal bins do not count. The percentage of a covergroup (type or instance) is the weighted mean over its own coverpoints and crosses, and the overall percentage the weighted mean over the covergroup types of all instances (0 if no weight is positive).",
 ["inputs"],"every database: any number of instances, covergroups, items and bins, any non-negative weights, at_least values and counts, empty parts included",
 "test_report.py and test_coverage_report.py fix a handful of shapes: one instance, at most two coverpoints, small counts.",
 [REP],[("hit test against at_least","CoverageReportBuilder.build_coverpoint, build_cross"),("weighted means","CoverageReportBuilder.build_covergroup, _build")],
 None,["CoverageReportBuilder.build"])
prop("C06","The coverage report mirrors the database",
 "The report contains every covergroup type of every instance, every covergroup instance, coverpoint and cross of each, in database order, with its name and weight, and every regular, ignore and illegal bin of each coverpoint and every regular bin of each cross, in order, with its name, count, at_least as the goal, and hit exactly when the count reaches the goal. The by-name maps of the report and of each covergroup lead to the items in the corresponding lists.",
 ["inputs"],"every database",
 "The tests look at one or two percentages and bin counts of a report.",
 [REP,"src/ucis/report/coverage_report.py"],[("tree walk","CoverageReportBuilder.build_covergroups, build_covergroup, build_coverpoint, build_cross"),("hit property","CoverageReport.CoverBin.hit")],
 None,["CoverageReport object"])
prop("C07","Coverage stays within 0..100, never falls with hits, and is only read",
 "Over any history of recording hits in a database, every percentage in its reports lies between 0 and 100, no percentage decreases from one report to the next, and the overall percentage is 100 only if every positively weighted coverpoint and cross with a positively weighted covergroup is fully covered. Building a report or a formatted report changes nothing in the database, and doing it again gives the same result.",
 ["histories","inputs"],"every database and every sequence of hits and reports on it",
 "The tests build one report of a finished database; there is no history of reports.",
 [REP,"src/ucis/report/text_coverage_report_formatter.py","src/ucis/report/format_rpt_json.py"],[("percentages computed from current counts","CoverageReportBuilder")],
 None,["successive reports, and the database around them"])

prop("C08","YAML import reproduces each covergroup instance exactly",
 "The database read from a valid YAML coverage document has one covergroup per covergroup type of the document, with the specified weight (1 by default), and under it one covergroup instance per instance entry, with exactly its coverpoints and crosses, their regular, ignore and illegal bins with their counts, and their at_least (1 by default), in document order. Each cross refers to the coverpoints of its own instance that it names, in that order.",
 ["inputs"],"every schema-valid document with non-negative numbers whose crosses refer to coverpoints of their own instance, in any YAML spelling, with optional parts present, empty or absent",
 "test_yaml_reader.py has four documents and no assertion about most of the result.",
 [YR,"src/ucis/schema/coverage.json"],[("instances recorded from the document","YamlReader.process_covergroup, record_coverpoint, record_cross")],
 None,["database returned by the reader"])
prop("C09","YAML import derives type coverage as the union of the instances",
 "In the database read from a YAML document the type-level coverage of a covergroup has exactly the coverpoints and crosses that occur in any of its instances, each once, with exactly the bins, by name and kind, that occur in any instance of that coverpoint or cross, each with the sum of the instance counts and with the at_least of the instances. Different covergroup types do not influence each other.",
 ["inputs"],"every valid document in which the instances of a covergroup agree on the at_least of each coverpoint and cross and on the coverpoints of each cross",
 "The tests have at most two instances with regular bins only; ignore bins, crosses without bins and partial overlaps are not sampled.",
 [YR],[("aggregation over instances","YamlReader.process_covergroup")],
 None,["type-level scopes of the database returned by the reader"])
prop("C10","YAML input is accepted exactly when it is valid",
 "Every document that has a coverage entry, satisfies the coverage schema and whose crosses refer to coverpoints of their own instance is read without error. A document that violates the schema (a missing or mistyped part) or in which a cross names an unknown coverpoint is rejected with an exception; it is never turned into a database. The encoding of the file (UTF-8 or UTF-16) and the locale make no difference. Reading one document has no effect on reading the next with the same or another reader.",
 ["inputs","histories"],"every document, and every sequence of documents read",
 "Only valid documents are tested.",
 [YR,"src/ucis/schema/coverage.json"],[("schema validation","YamlReader.load"),("check of cross references","YamlReader.process_covergroup")],
 None,["reader result or exception"])

prop("C11","Functional coverage survives an XML round trip",
 "Writing a database to XML and reading it back reproduces every instance with its design-unit name, every covergroup type with its weight, and every covergroup instance (a covergroup without instances comes back with one of its own name) with its weight, coverpoints and crosses, their weights, at_least and crossed coverpoints, and all bins with name, kind and exact count, in order. Writing and reading the result again changes nothing more, and reports of the original (if its type coverage is that of its instances) and of the copy show the same percentages.",
 ["inputs"],"every database that XML can express: each coverpoint has a bin and each covergroup instance a coverpoint, the bins of an item have the same at_least, numbers are non-negative, and names are XML text",
 "The tests round-trip two fixed databases and compare little beyond their existence.",
 [XW,XR],[("one cgInstance per covergroup instance","XmlWriter.write_covergroups, write_coverinstance, write_coverpoint, write_cross"),("reconstruction","XmlReader.readInstanceCoverage, readCovergroups, readCovergroup, readCoverpointBin, readCrossBin")],
 None,["database read back"])
prop("C12","The XML reader derives type coverage as the union of the instances",
 "For every covergroup type in a valid UCIS XML document the type-level coverage read from it has exactly the coverpoints and crosses of its covergroup instances, each once, with exactly the bins, by name and kind, of any instance, each with the sum of the instance counts. Instances belong to the type that they name, and different types, and the same type in different design instances, do not mix.",
 ["inputs"],"every schema-valid document with covergroup data, with any number of types and instances per section, whose instances of a type agree on weights, at_least and crossed coverpoints",
 "The tests read a few fixed documents; partial overlaps between instances and several types per section are not sampled.",
 [XR],[("grouping by type name, and aggregation","XmlReader.readCovergroups, readCovergroup, populateCoverpointType, populateCrossType")],
 None,["type-level scopes of the database read"])
prop("C13","Written XML is schema-valid and says what the database says",
 "The document written for a database satisfies the UCIS schema (if there is an instance, and each covergroup has coverpoints and each coverpoint bins, without which no document can), and contains exactly the instances, covergroup instances with their type name, coverpoints, crosses, crossed coverpoints, bins, bin types, counts, weights and at_least values of the database, in order: instance data where a covergroup has instances, type data where it has none. It lists every source file of the scopes once, under an id of its own. Any name and any text that XML can carry is written so that an XML parser reads back the same text. Writing changes nothing in the database, and the same writer object can write any number of databases.",
 ["inputs","histories"],"every database that XML can express (as in C11), any number of history nodes, files and instances, and any sequence of writes with one writer",
 "test_xml_output.py validates two small databases.",
 [XW,"src/ucis/xml/schema/ucis.xsd","src/ucis/xml/xml_ucis.py","src/ucis/xml/xml_factory.py"],[("element and attribute construction","XmlWriter.*"),("file numbering","XmlWriter.find_all_files, write_source_files")],
 None,["the document, parsed independently and validated"])
prop("C14","Test history survives an XML round trip",
 "Every history node of a database is found in the XML written for it and in the database read back, once and in order, with its logical and physical name, kind, whether the test passed, simulation and CPU time, time unit, working directory, seed, command, arguments, compulsory value, date, user, cost, tool category, vendor data, same-tests count and comment; values that were not set stay unset. No two nodes have the same id in the document. Selecting the nodes of a kind finds the same nodes after reading as before writing.",
 ["inputs"],"every list of history nodes, with every combination of set and unset fields, every test status, dates in any time zone rule, and text that XML can carry",
 "No test reads back a history node.",
 [XW,XR,"src/ucis/mem/mem_history_node.py"],[("attributes of historyNodes","XmlWriter.write_history_nodes, XmlReader.readHistoryNode")],
 None,["history nodes of the database read back"])
prop("C15","XML input is accepted in every valid form and rejected when invalid",
 "A schema-valid document is read to the same database whatever its spelling: with prefixed, default or no namespace, plain or gzip-compressed, in UTF-8 or any other encoding it declares (whatever the locale), from a file name or an open file, with bin contents in range or sequence elements, with optional parts absent or at their defaults. A file that is not well-formed, violates the schema, or has a cross over a coverpoint that its instance lacks is rejected with an exception and never read in part; the validator by itself says the same about well-formedness and schema. Reading one document has no effect on the next, with the same or another reader.",
 ["inputs","histories"],"every valid document and spelling, every kind of schema violation, every sequence of reads",
 "The tests read plain files of one spelling; no invalid input is tested.",
 [XR,"src/ucis/xml/xml_factory.py","src/ucis/xml/__init__.py"],[("validation before reading","XmlFactory.read, validate_ucis_xml"),("namespace removal","XmlReader.read"),("compression detection","XmlFactory._open_file"),("maps reset per document","XmlReader.read")],
 None,["reader result or exception"])

prop("C16","The in-memory database holds exactly what was created in it",
 "After any sequence of creation calls a database contains exactly the created scopes, under the scope they were created in, in creation order, with the given name, type, weight, source location, design unit and crossed coverpoints, and each coverpoint or cross bin with the given name, kind, count and at_least. Iterating over scopes or cover items with a mask yields exactly the children whose type is in the mask, in creation order, any number of times, also in interleaved iterations and while nothing is modified. File handles are shared per file name.",
 ["histories","inputs"],"every sequence of creation calls, through the object-oriented and the C-style functions, and every mask",
 "test_simple_create.py builds three fixed databases and asserts almost nothing about them.",
 [MS,"src/ucis/mem/mem_ucis.py","src/ucis/mem/mem_covergroup.py","src/ucis/mem/mem_cross.py","src/ucis/mem/mem_scope_iterator.py","src/ucis/mem/mem_cover_index_iterator.py","src/ucis/coverpoint.py"],[("child and cover-item lists","MemScope.addChild, createNextCover"),("mask iterators","MemScopeIterator, MemCoverIndexIterator")],
 None,["scopes(), coverItems() and the getters"])
prop("C17","A hit increments one bin by its amount, and nothing else",
 "Incrementing a cover item by an amount adds exactly that amount to its count, for any size of count, and changes no other bin, property or database. Counts never change except by incrementing, and at_least, name and kind of a bin never change at all.",
 ["histories"],"every interleaving of increments, creations, property changes, reports, writes and merges on any number of databases",
 "Counts are given at creation in the tests; no test increments anything.",
 ["src/ucis/mem/mem_cover_index.py","src/ucis/cover_data.py","src/ucis/coverpoint.py"],[("own cover data per bin","MemCoverIndex.incrementCover, Coverpoint.createBin")],
 None,["getCoverData() of every bin"])
prop("C18","Scope properties read back what was set, by either API",
 "A weight, goal, at_least, auto-bin maximum, overlap-detection, strobe, per-instance, merge-instances or comment value set on a scope is returned by the getter, and by the C-style property function, whichever of the two set it, until it is set again. Setting a property of one scope changes no other property and no other scope.",
 ["histories"],"every sequence of property changes on any scopes through the object-oriented setters and the C-style property functions, interleaved with creations and hits",
 "Only two tests set any option, and look at it only through a percentage.",
 [MS,"src/ucis/mem/mem_cvg_scope.py","src/ucis/mem/mem_covergroup.py","src/ucis/cvg_scope.py","src/ucis/covergroup.py","src/ucis/scope.py","src/ucis/__init__.py"],[("property dispatch","getIntProperty/setIntProperty/getStringProperty/setStringProperty along the class hierarchy")],
 None,["getters and ucis_Get*Property"])
prop("C19","History nodes keep the test data given to them",
 "A database lists the history nodes created in it, in creation order, each with the parent, names and kind it was created with; asking for a kind yields exactly the nodes of that kind and asking for all yields all. Each field of the test data, set as a whole or one by one, through either API, reads back as set and affects no other field or node.",
 ["histories"],"every sequence of history-node creations and field changes",
 "The tests create one history node and never read it.",
 ["src/ucis/mem/mem_history_node.py","src/ucis/mem/mem_history_node_iterator.py","src/ucis/mem/mem_ucis.py","src/ucis/history_node.py","src/ucis/test_data.py"],[("node list and kind filter","MemUCIS.createHistoryNode, MemHistoryNodeIterator"),("fields","MemHistoryNode, HistoryNode.setTestData")],
 None,["historyNodes(), getHistoryNodes() and the getters"])

prop("C20","The JSON report transcribes the coverage report",
 "The JSON report of a database is a JSON document with the overall percentage and, in order, every covergroup type with its name and percentage, its coverpoints and crosses with their names and percentages, their regular, ignore and illegal bins with name, goal and count, and its covergroup instances with the same content. Nothing of the coverage report is left out, and numbers are those of the coverage report.",
 ["inputs"],"every database, including those with crosses, without covergroups, with huge counts and with any text as names",
 "There is no test of the JSON report.",
 ["src/ucis/report/format_rpt_json.py","src/ucis/schema/covreport.json"],[("transcription per level","FormatRptJson.report, report_covergroup, report_coverpoint, report_cross")],
 None,["the document, parsed as JSON"])
prop("C21","The text reports list every item with its percentage and bins",
 "The text report of a database has one line per covergroup type, coverpoint, cross and covergroup instance, in report order, indented below its parent, with its name and percentage to the precision shown, and, when details are requested, one line per bin with name and count under a heading for its kind. With ordering by hit requested the bins that are hit come first, and each group keeps its order; otherwise bins are in report order.",
 ["inputs","configurations"],"every database whose names are single-line text, and every combination of detail, ordering and rounding options of the two text formatters",
 "The text formatter is called in two tests that do not look at its output.",
 ["src/ucis/report/text_coverage_report_formatter.py","src/ucis/report/format_rpt_text.py"],[("line output per level","report_covergroup, report_coverpoint, report_cross, report_bins")],
 None,["lines of the report"])

prop("C22","The convert and merge commands write what the library would",
 "The convert command writes an XML file that holds exactly the coverage (as in C11) of its input, and the merge command one that holds exactly the merge (as in C01 and C03) of its inputs, for XML and YAML inputs and any number of them; the report of the output shows the percentages of the merged data. The inputs are left as they are, and an existing output file is replaced completely. The files are the same in any locale.",
 ["inputs","configurations"],"every list of readable input files of one format, in every order, and every spelling of the options",
 "The commands are not tested at all.",
 ["src/ucis/cmd/cmd_convert.py","src/ucis/cmd/cmd_merge.py","src/ucis/__main__.py","src/ucis/rgy/format_rgy.py","src/ucis/xml/db_format_if_xml.py","src/ucis/yaml/db_format_if_yaml.py","src/ucis/xml/xml_ucis.py"],[("read all, merge, write","cmd_convert.convert, cmd_merge.merge")],
 None,["output file, exit status"])
prop("C23","The report and list commands show what the library would",
 "The report command prints, or writes to the given file, exactly the report of the chosen format (text by default) of the input read in the chosen format (XML by default); a report written to a file is in UTF-8 in any locale. The list commands name every registered database and report format once, in order.",
 ["inputs","configurations"],"every readable input file, every combination of input format, report format and output destination",
 "The commands are not tested at all.",
 ["src/ucis/cmd/cmd_report.py","src/ucis/cmd/cmd_list_db_formats.py","src/ucis/cmd/cmd_list_report_formats.py","src/ucis/rgy/format_rgy.py","src/ucis/__main__.py"],[("dispatch by format","cmd_report.report, FormatRgy")],
 None,["standard output, output file, exit status"])
prop("C24","A command that fails says so and leaves existing files alone",
 "When an input file is missing or invalid, a format is unknown or cannot be written, or a merge is impossible, the command ends with a non-zero exit status and an error message, does not create or change the output file, and does not touch the inputs; one bad input among good ones fails the whole command. A command that succeeds ends with exit status 0.",
 ["inputs","fault_sequences"],"every command, every kind of bad input or argument and its position among good ones",
 "The commands are not tested at all.",
 ["src/ucis/__main__.py","src/ucis/cmd/cmd_convert.py","src/ucis/cmd/cmd_merge.py","src/ucis/cmd/cmd_report.py"],[("format checks and read errors raised before the output is written","cmd_*"),("exit status","__main__.main")],
 None,["exit status, standard error and output, file system"])
prop("C25","Databases and their objects are independent of each other",
 "Operations on one database (creating, hitting, setting, merging from it, reporting, reading, writing) never change another, in any interleaving and however many databases, readers, writers, mergers and formatters exist, new or reused. A scope keeps its own children and bins even if it shares its name with another, a database refers to design units of its own only, and lists passed to or returned by the library are not aliased between scopes.",
 ["histories"],"every interleaving of operations on several databases",
 "Each test uses one database at a time, or merges and forgets.",
 [MS,"src/ucis/mem/mem_ucis.py",XR,YR,MERGE],[("per-object state","constructors of the in-memory classes; reader state reset per document")],
 None,["all databases after every operation"])
prop("C26","The library back end passes everything to the C library and back",
 "What a program does through the Python API to a database of the library back end (ucis.lib) arrives in the native UCIS C library it is bound to: every file handle, scope, instance, covergroup, coverpoint, cross, toggle, bin and history node created is created there exactly once, under the right parent, with the name, kind, count (up to 64 bits), weight, language, flags, design unit, crossed coverpoints and source position given, in the codes of the UCIS standard, and every test-data field and integer or string property set has the value set, and nothing else changes. Iterating over scopes (any mask) and history nodes (any kind) finds exactly those that are there, in order; source positions, file names and test data are read back as they were set; reading changes nothing. Databases are independent; one that is written and opened again has the same content; writing passes on the scope, recursion and cover types asked for. What the C library refuses to create, set, open or write raises an exception and changes nothing. (Getters and queries that the back end does not implement, and at_least of bins, which the C call has no place for, are outside.)",
 ["inputs","histories"],"every sequence of creations, settings, iterations, writes, opens and closes over any number of databases of the library back end, with any valid names, counts, flags, masks and properties, and any call refused by the C library",
 "No test can load a native library, so none of the back end runs in the tests at all.",
 ["src/ucis/lib/libucis.py","src/ucis/lib/lib_ucis.py","src/ucis/lib/lib_scope.py","src/ucis/lib/lib_obj.py","src/ucis/lib/lib_history_node.py","src/ucis/lib/LibFactory.py","src/ucis/lib/db_format_if_lib.py"],[("calls of the C functions through ctypes","Lib* classes, libucis.get_lib"),("C structures for cover data, source information, test data and property values","lib_cover_data and the structure classes of ucis.lib")],
 [("content of the native database","scopes, items, history nodes, properties","in the C library")],["state of the C library; results of iterators and getters"])
prop("C27","Items, coverage records and database attributes are kept as set",
 "Items added to a design instance or toggle scope are numbered 0, 1, 2, ... in the order of creation, each with its own name and attributes; the statement index set for one item (through the item, its scope or the C-style function) is read back for that item and no other, and setting or reading one that does not exist is refused. Coverage-instance records of a database are listed in order of creation with the name and statement they were created with, under keys that are all different. Who wrote a database and when, the type of each source file, weights and goals of scopes, and the same attributes of the database itself (asked for without naming an object) are read back as last set. None of these operations changes anything else, in this or any other database.",
 ["inputs","histories"],"every sequence of creating items and records and setting attributes on databases of any shape, mixed with hits and other operations",
 "None of these attributes is set or read back in any test.",
 [MS,"src/ucis/mem/mem_ucis.py","src/ucis/mem/mem_obj.py","src/ucis/mem/mem_instance_scope.py","src/ucis/mem/mem_cover_index.py","src/ucis/__init__.py","src/ucis/obj.py","src/ucis/ucis.py"],[("per-object attributes","mem_ucis, mem_scope, mem_cover_index"),("C-style functions passing to the objects","ucis_SetIntProperty, ucis_GetIntProperty and others in ucis.__init__")],
 None,["items, records and attributes read back after every operation"])
prop("C28","Formats registered are the formats listed, found and used",
 "There is one registry of formats in a program. A database or report format that is registered is listed exactly once, in sorted order, with its description and flags, and is found under its name and no other; registering a name again replaces that entry and no other; database and report formats with the same name do not disturb each other; the formats built in stay there unless they are registered anew, and a name that is not registered is refused. The commands read, write and report with exactly the format registered under the name they are given (and under the default name if none is given), and do for it what they do for a built-in format that does the same. The report of a format that writes a directory is in the directory named, which is made if it does not exist and emptied if it does; if a file is in the way, or no directory is named, the command fails and changes nothing. A format that supports neither is refused.",
 ["inputs","histories","configurations"],"every sequence of registrations, lookups and commands, any names of formats, every kind of output destination",
 "No test registers a format or runs a command.",
 ["src/ucis/rgy/format_rgy.py","src/ucis/rgy/format_if_db.py","src/ucis/rgy/format_if_rpt.py","src/ucis/cmd/cmd_report.py","src/ucis/cmd/cmd_convert.py","src/ucis/cmd/cmd_merge.py","src/ucis/cmd/cmd_list_db_formats.py","src/ucis/cmd/cmd_list_report_formats.py","src/ucis/__main__.py"],[("one dictionary per kind of format, one instance per process","FormatRgy"),("output destination by flags","cmd_report.report")],
 [("registry of formats","registrations","ucis.rgy.FormatRgy")],["lists, descriptions and lookups after every operation; outputs, exit status and files of commands"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
