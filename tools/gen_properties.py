#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line)."""
import json, os
P = []
H = "source/data_model/hdf5/source/"; HI = "source/data_model/hdf5/include/lue/hdf5/"
C = "source/data_model/cxx/source/"; CI = "source/data_model/cxx/include/lue/"
PY = "source/data_model/python/source/"; G = "source/data_model/gdal/source/"; GI = "source/data_model/gdal/include/lue/gdal/"
HL = "source/data_model/hl/source/"
QC = "source/quality_assurance/cxx/source/scalability/"; QP = "source/quality_assurance/scalability/command/scalability/experiment/"

def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
             why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    P.append(d)

# ---------------------------------------------------------------- HDF5 layer
p("H01", "Every storage-library handle is released exactly once by its own close call",
  "Every file, group, dataset, attribute, data type, data space and property-list handle obtained from the HDF5 library, and every dataset opened or created through GDAL, is handed to an owning object that releases it with the close function for that kind of handle, on every path including the ones that raise an error. Copying an owner adds one reference, moving transfers it, and each reference is dropped exactly once, so a program that opened and dropped everything holds no open handles and its files can be reopened or truncated.",
  ["inputs", "fault_sequences", "histories"], "every call that yields a library handle, every normal and error exit after it, every history of copies, moves and assignments of owners",
  "Tests open a few objects on the success path and end the process; leaked or doubly closed handles stay invisible, and the error exits are not exercised at all.",
  [H+"identifier.cpp", H+"file.cpp", H+"group.cpp", H+"dataset.cpp", H+"attribute.cpp", H+"dataspace.cpp", H+"datatype.cpp", H+"primary_data_object.cpp", HI+"attribute.hpp", G+"dataset.cpp"],
  [("owning identifier class", H+"identifier.cpp"), ("handle wrapped at the acquiring expression", H+"dataset.cpp"), ("shared pointer with closing deleter", G+"dataset.cpp")])
p("H02", "A failed storage operation is never ignored",
  "Whenever the HDF5 library reports that an operation which changes, reads, opens or creates something in a file has failed, the operation that asked for it raises an exception. No caller gets a normal return from a read, write, create, open, resize, delete, link or flush that did not happen, and none gets an error for one that did.",
  ["fault_sequences", "inputs"], "every call into the HDF5 library that can report failure, on every path, for any moment at which it fails",
  "Failures of the storage layer need a full disk, a corrupt file or a permission change at one particular call; the tests do not inject any.",
  [H+"file.cpp", H+"group.cpp", H+"dataset.cpp", H+"attribute.cpp", H+"attributes.cpp", H+"dataspace.cpp", H+"datatype.cpp", H+"link.cpp", H+"identifier.cpp", HI+"attribute.hpp"],
  [("status test followed by throw after each library call", H+"dataset.cpp"), ("validity test of the acquired handle followed by throw", H+"group.cpp")])
p("H03", "Array reads and writes transfer exactly the requested selection",
  "Reading from or writing to an array transfers exactly the elements the caller selected (start, stride and count per dimension, or everything when no selection is given) between the caller's buffer, laid out as the caller's data type and data space say, and the file. The selected part of the buffer and the selected part of the file always have the same number of elements, and filling a selection touches every selected element and nothing else.",
  ["inputs"], "every read, write and fill overload, every selection (offset, stride, count), every data type",
  "Tests read and write whole arrays and contiguous unit-stride slabs of a few types; strides, offsets in several dimensions and differing in-memory types are not sampled.",
  [H+"dataset.cpp", H+"hyperslab.cpp", HI+"dataset.hpp", C+"core/array.cpp", CI+"core/array.hpp"],
  [("overload cascade ending in one select-then-transfer", H+"dataset.cpp"), ("array forwards its in-memory type", CI+"core/array.hpp")])
p("H04", "Opening, navigating, reading and validating never modify a file",
  "Opening an existing dataset, navigating to any of its parts, querying their existence, shapes or metadata, reading array values and validating a dataset never create, write, resize, link or delete anything in a file, and a file is opened read-only unless the caller asked for write access. Existing files are only truncated by the calls that create a new dataset file, and objects are only deleted by the calls that are asked to remove something.",
  ["programs", "histories"], "every program that uses only opening, querying, reading and validating calls, on every path through them",
  "A test would have to compare the bytes of the file before and after every query call in every combination; the tests never do so.",
  [H+"file.cpp", H+"group.cpp", H+"dataset.cpp", H+"attributes.cpp", C+"object/dataset.cpp", C+"validate.cpp", PY+"hdf5/file.cpp"],
  [("mutating library calls confined to create, write, resize, expand and remove functions", H), ("default access mode of the opening functions", H+"file.cpp")])
p("H05", "In-memory and on-disk data types correspond one to one",
  "For each supported element type the description of the type in memory, the little-endian description used on disk, the reported name and the reported size all denote the same kind (signed, unsigned or floating point) and width, and translating an in-memory type to the on-disk type and back yields the type started from. Types that are not supported are refused with an error.",
  ["inputs"], "every element type, every place where one representation of a type is translated to another",
  "The tests translate a few types; a swapped entry for one of the others stores values with the wrong width or signedness without failing anything.",
  [H+"datatype.cpp", HI+"datatype.hpp", HI+"datatype_traits.hpp"],
  [("translation chains", H+"datatype.cpp"), ("traits table", HI+"datatype_traits.hpp")])
p("H06", "Attributes read back the value that was written last",
  "Writing a text or number attribute makes that value the one later reads return, whether or not the attribute existed before and whatever length an earlier value had. Reading uses the type and the length of the stored value, and existence queries, writing, reading and removing address the same attribute of the same object.",
  ["inputs", "histories"], "every history of writes, removals and reads of attributes with values of any type and length",
  "Tests write each attribute once with a short fixed value; overwriting with another length is not sampled.",
  [HI+"attribute.hpp", HI+"attributes.hpp", H+"attribute.cpp", H+"attributes.cpp"],
  [("write replaces or creates", HI+"attributes.hpp"), ("string attribute sized by its value", HI+"attribute.hpp")])
p("H07", "Existence queries and listings tell exactly what is stored",
  "Asking whether something is stored under a name - a link, a group, an array, a soft or hard link, an attribute, a dataset file, a collection, a domain, the values of an object - answers yes exactly when there is one of that kind under that name at that place, whatever else may have that name, and a failure to find out is never reported as presence. Listing a group names all its child groups (or all its groups and arrays) and nothing else; a collection holds an item for each of them, and its size, membership test, names and item access agree with that: an item that is not there is refused instead of another one given. Navigating from a property to its property set, phenomenon or dataset, or to another property by path, reaches the part that the names denote. Removing a dataset removes the file of that name. Paths of objects, files and link targets are reported whole, whatever their length, and nothing besides them.",
  ["inputs", "histories"], "every state a name can be in (absent, link of any kind, to an object of any kind or to none), groups with any number of items of any kind",
  "Tests ask for a few names that exist as the expected kind; other kinds under the same name, dangling links and larger groups are not sampled.",
  [H+"link.cpp", H+"group.cpp", H+"soft_link.cpp", H+"hard_link.cpp", H+"dataset.cpp", H+"attributes.cpp", H+"file.cpp", CI+"core/collection.hpp", CI+"navigate.hpp", C+"object/dataset.cpp"],
  [("existence of links", H+"link.cpp"), ("collecting callbacks", H+"group.cpp"), ("items of collections", CI+"core/collection.hpp"), ("navigation", CI+"navigate.hpp")])
# ---------------------------------------------------------------- data model
p("M01", "Whatever is created can be reopened under the same name",
  "Each part of a dataset (groups, arrays, attributes and links) is looked up, when it is opened later or by another process, under exactly the name and kind under which the corresponding create call stored it. Different parts stored next to each other never share a name, and the names are the ones existing files use. A description that is passed on creation is stored whenever there is one.",
  ["programs", "histories"], "every kind of object the data model can create, with its corresponding open call, in any order and across processes",
  "Tests reopen a few of the roughly forty kinds of objects; creation and opening of the others are never paired.",
  [CI+"core/tag.hpp", C+"object/property/property_set.cpp", C+"object/time_domain.cpp", C+"object/space_domain.cpp", C+"info/property/property_group.cpp", C+"array/different_shape/value.cpp", C+"object/phenomenon.cpp"],
  [("shared tag constants", CI+"core/tag.hpp"), ("create functions and opening constructors", C)])
p("M02", "Stored metadata text maps one to one to the in-memory setting",
  "Every setting kept as text in a file (mobility, item type, value variability, shape variability, shape per object, discretisation kinds, units, epoch kind, calendar) has its own distinct text, every setting that can be written can be read back as the same setting, and text that denotes no setting is refused with an error. Saving a configuration writes each setting under the name from which loading reads that same setting.",
  ["inputs", "histories"], "every enumerated setting and every stored text",
  "Tests write a few settings; settings that occur in no test can be swapped or lost on reading.",
  [CI+"core/aspect.hpp", CI+"core/configuration.hpp", CI+"core/enum_string_bimap.hpp", C+"core/clock.cpp", C+"core/time/epoch.cpp", C+"object/space_domain.cpp", C+"object/time_domain.cpp", C+"info/property/property_group.cpp", C+"array/value_group.cpp"],
  [("setting-to-text tables", C), ("save and load of each setting", CI+"core/configuration.hpp")])
p("M03", "Growing a value keeps stored counts, array extents and earlier values in step",
  "After a value is expanded with n objects (or n locations in time), the number of objects or locations it reports, in the same process and after reopening, is the previous number plus n, and there is room for exactly those. Growing never discards earlier values, always grows along the first dimension, keeps all other extents, and stores per-object arrays under consecutive numbers following the existing ones, or under the whole identifier of their object.",
  ["histories", "inputs"], "every history of expand calls on every kind of value, with every n, interleaved with reopening",
  "Tests expand once from empty; repeated growth and reopening in between are not sampled, and the remembered and the stored count are never compared.",
  [C+"array/same_shape/value.cpp", C+"array/same_shape/constant_shape/value.cpp", C+"array/same_shape/variable_shape/value.cpp", C+"array/different_shape/value.cpp", C+"array/different_shape/constant_shape/value.cpp", C+"array/different_shape/variable_shape/value.cpp", C+"info/identity/object_id.cpp"],
  [("expand functions", C+"array"), ("count attributes", C+"array/different_shape/value.cpp")],
  state=[("stored counts", "number of objects and of locations in time kept as attributes and as members", C+"array/different_shape/value.cpp")])
p("M04", "Values are read and written in the in-memory type they were opened with",
  "An array, value or property that is created or opened with a given in-memory data type transfers values in that type everywhere, including the per-object and per-location arrays obtained from it. The on-disk type, rank and shape passed on creation are the ones stored and reported later.",
  ["inputs", "programs"], "every kind of array, value and property, every in-memory type that differs from the on-disk type, every accessor that hands out a nested array",
  "Tests open values with the type they were created with, so a dropped or swapped type goes unnoticed until a buffer of another size overflows.",
  [C+"array/same_shape/variable_shape/value.cpp", C+"array/different_shape/value.cpp", C+"core/array.cpp", C+"array/value_group.cpp", C+"info/property/same_shape/property.cpp"],
  [("accessors pass on the in-memory type", C+"array"), ("constructors pass on the in-memory type", C+"info/property")])
p("M05", "A new property set has exactly the parts that were asked for",
  "A newly added property set has an object tracker, collections for every kind of property, and a time domain and a space domain exactly when these were asked for: owned when a configuration is passed, linked to the given one when an existing domain or tracker is passed. Reopened, it reports and exposes those same domains, and adding a property set under a name in use is refused and leaves the existing set as it was.",
  ["inputs", "programs"], "every combination of time domain, space domain and object tracker being absent, owned or shared",
  "Tests use two or three of the nine combinations.",
  [C+"object/property/property_set.cpp", C+"object/property_sets.cpp", "source/data_model/python/source/object/phenomenon.cpp"],
  [("create_property_set overloads", C+"object/property/property_set.cpp"), ("adding overloads of the collection", C+"object/property_sets.cpp")])
p("M06", "Within a property set a property name denotes one property of one kind",
  "A property name can be used once per property set, whatever the kinds of the properties involved: adding a second one raises an error before anything is created. Membership tests, queries of a property's kind and removal consider properties of all kinds, and agree with each other and with where the property was put.",
  ["inputs", "histories"], "every history of adding, querying and removing properties of all six kinds",
  "Tests add properties of one kind with distinct names; clashes across kinds are not sampled.",
  [C+"object/property/properties.cpp", CI+"object/property/properties.hpp", CI+"core/collection.hpp"],
  [("existence check before each add", C+"object/property/properties.cpp"), ("enumeration of all kinds", C+"object/property/properties.cpp")])
p("M07", "Comparing time values, settings and objects is lawful",
  "Equality of durations, tick periods, clocks, epochs and time points is reflexive, symmetric and transitive, takes every part of the value that distinguishes moments or periods into account, and inequality is its negation. Where such values can be ordered, the order is irreflexive, asymmetric and transitive. Configurations are equal when all their settings are, and handles of stored objects exactly when they refer to the same object.",
  ["inputs"], "all pairs and triples of values",
  "A law over all triples is not settled by the handful of pairs that tests compare.",
  [CI+"core/time/clock.hpp", CI+"core/time/duration.hpp", CI+"core/time/tick_period.hpp", CI+"core/time/time_point.hpp", C+"core/time/epoch.cpp", CI+"core/index_range.hpp"],
  [("comparison operators", CI+"core/time")])
p("M08", "Domains and property links report the configuration they were created with",
  "A time domain or space domain exposes its items through the value type that fits its configuration, creates exactly the arrays that type reads, and refuses combinations it does not support. A property that was linked to a discretisation property reports that kind of discretisation and returns the property that was linked, and a property that was not linked reports none.",
  ["inputs", "programs"], "every combination of mobility, item type and time item type; every link between properties",
  "Tests create one or two of the combinations and follow links for one property kind.",
  [C+"object/time_domain.cpp", C+"object/space_domain.cpp", C+"info/property/property_group.cpp", CI+"object/space_domain.hpp", CI+"object/time_domain.hpp", PY+"object/space_domain.cpp", PY+"object/time_domain.cpp"],
  [("selection of the value type by configuration", C+"object/space_domain.cpp"), ("discretisation links", C+"info/property/property_group.cpp")])
# ---------------------------------------------------------------- validation
p("M09", "A no-data value given on creation is stored with the array and reported for it",
  "When an array is created with a no-data value, unwritten cells read as that value and the array reports having it, in the element type of the array; when it is created without one, the array reports none, and never zero by default. This holds for every way of creating values - values of all objects, values per object, raster layers - and every element type, boolean included. Setting the no-data value of an array has the effect that it is the one reported afterwards.",
  ["inputs", "histories"], "every element type, every way to create arrays, with and without a no-data value",
  "No test sets a no-data value through the data model: the result depends on the property list that reaches HDF5.",
  ["source/data_model/hdf5/source/dataset.cpp", "source/data_model/hdf5/include/lue/hdf5/dataset.hpp", "source/data_model/cxx/source/array/same_shape/value.cpp", "source/data_model/cxx/source/array/different_shape/value.cpp", "source/data_model/cxx/include/lue/core/array.hpp", "source/data_model/hl/include/lue/data_model/hl/raster_view.hpp"],
  [("creation list without fill value", "source/data_model/hdf5/source/dataset.cpp"), ("value set in the creation list", "source/data_model/cxx/source/array/same_shape/value.cpp")])
p("V01", "Validation visits every part of a dataset",
  "Validating a dataset examines every universe, every phenomenon, every property set and collection property set, its object tracker, its time domain and space domain when present, and every property of every kind together with its value and its discretisation. No part is skipped because of what another part contains, other than the parts that a reported error makes impossible to interpret.",
  ["inputs", "histories"], "every dataset with any number of universes, phenomena, property sets and properties of all kinds",
  "Validity of all datasets with all combinations of parts cannot be sampled; the tests validate one small dataset of each sort.",
  [C+"validate.cpp", H+"validate.cpp"],
  [("recursive descent of the validator", C+"validate.cpp")])
p("V02", "Every count mismatch in a dataset is reported as an error by validation",
  "When the numbers of objects, active objects, sets, boxes, cells, counts or values that a dataset stores for related parts differ, in either direction, validating that dataset reports an error for it; when they agree, that comparison reports none. Identifiers stored for a property set whose objects differ in number from the values of any of its properties are never accepted silently.",
  ["inputs"], "every pair of related counts in every part of a dataset, for all values of the counts",
  "Each comparison needs its own inconsistent dataset, on both sides of the inequality; only a few of them occur in the tests.",
  [C+"validate.cpp", H+"validate.cpp"],
  [("comparison followed by error report", C+"validate.cpp")])
p("V03", "A dataset with reported issues does not pass as valid",
  "Asserting that a dataset is valid raises an error, naming the issues, when validation reported an error, or when it reported a warning and warnings were asked to be fatal, and returns normally otherwise. Errors and warnings are kept apart, none is lost between the place that reports it and the assertion, and an exception during validation counts as an error.",
  ["inputs", "fault_sequences"], "every set of reported errors and warnings, both settings of the fatal-warnings flag, in C++ and Python",
  "The combinations of errors, warnings and the flag, and failures in the middle of validating, are not sampled.",
  [C+"validate.cpp", H+"validate.cpp", H+"issues.cpp", H+"issue.cpp", PY+"validate.cpp", PY+"hdf5/validate.cpp"],
  [("assertion", C+"validate.cpp"), ("issue lists", H+"issues.cpp")])
# ---------------------------------------------------------------- Python
p("P01", "Python enumerations offer exactly the settings of the library",
  "Each enumeration in the Python package offers every setting of the corresponding library enumeration, each under its own name and none under the name of another one. Selecting a setting by name in Python selects the setting of that name in the file.",
  ["inputs", "programs"], "every enumeration and every member",
  "Tests use a few members; a missing or swapped one is only seen by the program that uses it.",
  [PY+"submodule.cpp", PY+"object/space_domain.cpp", PY+"object/time_domain.cpp", PY+"core/time/epoch.cpp", PY+"object/property_set.cpp", PY+"core/clock.cpp"],
  [("enumeration bindings", PY)])
p("P02", "NumPy element types map to the stored element type of the same kind and width",
  "For each supported element type, creating an array or property with a NumPy type stores that kind and width, an array reports the NumPy type of what it stores, and reading, writing and filling move values through a buffer of that same type. Every supported type can be both written and read, and unsupported types are refused with an error.",
  ["inputs"], "every element type in every direction (create, report, read, write, fill)",
  "The tests use a few of the ten element types.",
  [PY+"conversion.cpp", PY+"core/array.cpp"],
  [("type dispatch tables", PY+"core/array.cpp"), ("type conversion", PY+"conversion.cpp")])
p("P03", "Python array assignment and indexing never touch memory outside the buffers",
  "Indexing an array from Python with integers, slices and tuples of these reads or writes exactly the elements NumPy would select, or raises an error. Assigning an array whose number of elements does not match the selection raises an error instead of reading beyond the end of the assigned buffer. Arrays of identifiers and shapes from which object arrays are made are read in the order of their elements, and refused when their shapes do not agree.",
  ["inputs"], "every index expression and every shape of assigned array",
  "The index expressions and shapes are unbounded; tests sample in-range slices with matching shapes.",
  [PY+"core/array.cpp", PY+"different_shape/value.cpp"],
  [("index parsing and shape comparison", PY+"core/array.cpp")])
p("P04", "Python objects keep alive what they refer to and never alias a dead object",
  "A Python object that refers to a part of another library object keeps that other object alive for as long as it exists. References returned by properties, methods, iteration and attribute access therefore remain usable after the Python variable of the object they came from is gone. Objects reached from another object are that object and not copies of it: what is added through one is seen through the other.",
  ["programs", "histories"], "every binding that returns a reference into another object, every order in which Python drops its variables",
  "Use after free depends on when Python drops the owner; the tests keep every owner in a variable.",
  [PY+"object/phenomenon.cpp", PY+"object/property_set.cpp", PY+"object/universe.cpp", PY+"dataset.cpp", PY+"core/collection.hpp", PY+"hl/raster_view.cpp"],
  [("return value policies and keep-alive annotations", PY)])
p("P05", "Python calls reach the library operation they name with the arguments given",
  "Each Python method that adds a property set or a property, or that exposes a domain's or property's value, reaches the library operation for exactly the kinds asked for, with the arguments in the positions the library expects. Each combination of value variability, shape per object and shape variability yields a property of that combination, and unsupported combinations raise an error. An attribute yields the item of that name, and an error when there is none. Importing the package makes all of this available.",
  ["inputs", "programs"], "every overload and every combination of the enumerated arguments",
  "Tests call a few overloads with a few combinations.",
  [PY+"object/phenomenon.cpp", PY+"object/property_set.cpp", PY+"object/space_domain.cpp", PY+"object/time_domain.cpp", PY+"hdf5/file.cpp", PY+"dataset.cpp"],
  [("overload lambdas", PY+"object/phenomenon.cpp"), ("dispatch on enumerated settings", PY+"object/property_set.cpp")])
# ---------------------------------------------------------------- GDAL / hl
p("G01", "A failed raster operation is never ignored",
  "Opening, creating, copying, deleting, reading and writing rasters through GDAL raises an exception whenever GDAL reports failure, except for the variants that are documented to return an empty result instead. This includes reading and writing blocks and setting or getting the georeference.",
  ["fault_sequences", "inputs"], "every GDAL call that reports failure, on every path",
  "GDAL failures need corrupt files or full disks at a particular call; the tests only open a non-existing file.",
  [G+"dataset.cpp", G+"raster_band.cpp", G+"raster.cpp", G+"driver.cpp", G+"compare_rasters.cpp"],
  [("error code test followed by throw", G+"raster_band.cpp"), ("null test followed by throw", G+"dataset.cpp")])
p("G02", "Raster shapes and block positions keep rows and columns apart",
  "Wherever shapes, block positions and counts of a raster pass between this library (row first) and GDAL (column first), rows stay rows and columns stay columns. This holds when creating, querying, reading, writing and comparing rasters, for rasters and blocks that are not square and for partial blocks at the right and bottom edges.",
  ["inputs"], "every raster and block shape, square or not, every block including the partial ones",
  "Square rasters and square blocks hide an exchange of rows and columns; the tests use a few shapes.",
  [G+"dataset.cpp", G+"raster.cpp", G+"raster_band.cpp", G+"blocks.cpp", G+"compare_rasters.cpp"],
  [("conversion at each GDAL call", G+"raster_band.cpp")])
p("G03", "GDAL element types correspond one to one to the library's element types",
  "For each supported element type the GDAL type used to create, read, write and compare rasters has that same kind and width, each GDAL type has its own name, and rasters with unsupported types are refused. Values are moved through buffers of the element type of the raster.",
  ["inputs"], "every element type supported by GDAL and this library",
  "Tests sample a few types.",
  [GI+"type_traits.hpp", G+"data_type.cpp", G+"compare_rasters.cpp", GI+"raster_band.hpp"],
  [("type traits table", GI+"type_traits.hpp"), ("dispatch on element type", G+"compare_rasters.cpp")])
p("G04", "Comparing rasters reports a difference exactly when they differ",
  "Comparing two rasters reports nothing when shape, georeference, number of bands, element types, no-data settings and all valid cell values agree, and reports at least one difference when any of these differs. NaN values count as equal in rasters that use NaN as no-data value, and so do no-data values that are both NaN. Every band and every block, partial ones included, is compared with the corresponding one of the other raster.",
  ["inputs"], "every pair of rasters, any number of bands and blocks, with and without no-data values",
  "Tests compare a few small rasters that differ in one respect.",
  [G+"compare_rasters.cpp"],
  [("comparison of rasters, bands and values", G+"compare_rasters.cpp")])
p("G05", "Raster functions do in GDAL what their caller asks, and return what GDAL answers",
  "When a function that opens, creates, copies, deletes, queries, reads or writes a raster returns, GDAL has performed that operation on the dataset, driver or band it was given, with the names, mode, options, band number, element type, buffer and value of its caller. What it returns is what GDAL answered: the dataset, band, type, georeference, number of bands, no-data value and whether there is one. A georeference is refused exactly when the raster isn't north up or its cells aren't square. Options reach GDAL as name=value, and the driver for a file follows from its extension, whatever its case.",
  ["inputs"], "every call of every overload of the functions that wrap GDAL, and every georeference",
  "Tests use one overload with one set of arguments; a default or an argument dropped by another overload goes unseen.",
  [G+"dataset.cpp", G+"raster_band.cpp", G+"raster.cpp", G+"driver.cpp", GI+"raster_band.hpp"],
  [("overloads that delegate to one another", G+"dataset.cpp"), ("members that delegate to functions", G+"raster.cpp")])
p("C01", "A header means the same wherever it is included",
  "Every class, function and template of the headers has one definition: what a program gets does not depend on the order in which it includes headers, on what else it includes, or on which component it is part of, nor does the layout of a class depend on whether the program is a release.",
  ["inputs", "configurations"], "every header, by itself and in every translation unit of the built components",
  "Each test program includes headers in one order, and a violation of the one definition rule goes undiagnosed.",
  [GI+"raster_band.hpp", GI+"type_traits.hpp", "source/data_model/hdf5/include/lue/hdf5.hpp"],
  [("choice of 64 bit functions", GI+"raster_band.hpp")])
p("R01", "A raster view reopens with the grid, time and layers it was created with",
  "Creating a raster view in a new or existing dataset stores the space box, grid shape, time boxes and object identifiers under the names, types and shapes from which opening the view reads them, and reuses a phenomenon that is already there. Layers are added with the discretisation of the view and a name that is not in use, and asking for a layer that does not exist raises an error. A property-set is recognised as a raster of one of the sorts when it is what creating a view of that sort makes, and only when opening the view finds everything that it reads, none of it discretized in turn.",
  ["inputs", "histories"], "constant and variable rasters, every order of creating, adding layers and reopening",
  "Tests create one view of each sort with one layer.",
  [HL+"raster_view.cpp", HL+"util.cpp", HL+"dataset_view.cpp"],
  [("create and open of a view", HL+"raster_view.cpp"), ("layer registration", HL+"raster_view.cpp")])
# ---------------------------------------------------------------- QA
p("Q01", "Recorded scalability timings are written completely and under fixed names",
  "A saved scalability experiment contains its start, its total duration, its unit and, for every run and in order, the start and duration of that run, all durations in the unit that is recorded with them. A duration is the time from start to stop of the same watch, and saving to a file that cannot be written raises an error.",
  ["inputs", "histories"], "every number of runs, every history of starts and stops, every saved experiment",
  "Tests check a few lines of one saved experiment.",
  [QC+"io.cpp", QC+"stopwatch.cpp", QC+"time_interval.cpp", QC+"experiment.cpp", QC+"array_experiment.cpp"],
  [("translation to JSON", QC+"io.cpp"), ("stopwatch", QC+"stopwatch.cpp")])
p("Q02", "Scalability settings survive being written to and read from JSON",
  "Every setting of a cluster, benchmark or experiment description that is written to JSON is read back under the same name into the same setting, and every setting that is read is also written. Unknown kinds are refused with an error.",
  ["inputs"], "every class of settings and every field",
  "Tests convert some of the classes; a field that is written under one name and read under another only shows on the classes that no test covers.",
  [QP+"benchmark.py", QP+"cluster.py", QP+"pool.py", QP+"worker.py", QP+"shape.py", QP+"experiment.py"],
  [("to_json and from_json methods", QP)])
QC = "source/quality_assurance/scalability/command/scalability/"
p("Q03", "Failing benchmark commands stop the experiment; results are found where written",
  "When a command that the scalability tools start exits with a failure, the function that started it raises an error, whatever the way it failed and whoever called it, and it does not when the command succeeds. The generated scripts stop at the first command that fails. They start the program that was asked for with the settings of the experiment (count, number of workers, array shape, partition shape, result file) each passed under its own option, the same for each scheduler, and the results are imported from exactly the files the commands were told to write.",
  ["fault_sequences", "inputs"], "every outcome of every command, every kind of experiment, scheduler and worker",
  "Failing commands are not run by the tests, and neither are the generated scripts.",
  [QC+"core/process.py", QC+"experiment/job.py", QC+"experiment/util.py"] + [QC+f"experiment/{k}/{f}.py" for k in ("partition_shape", "weak_scalability", "strong_scalability") for f in ("generate_script", "import_results", "experiment")],
  [("command execution helper", QC+"core/process.py"), ("settings passed to the program", QC+"experiment/job.py")])
p("Q04", "Experiment results are reported from the values stored under the same names",
  "What the export, summary and plotting steps of the scalability tools read from a result dataset has been written there under that name by the import, for every kind of experiment and for one and for several measurements per setting. Imported values come from the benchmark result's entry of their name. Relative speed-up is the duration with one worker divided by the duration, wherever the measurement with one worker is stored; relative efficiency is that as a percentage (for strong scalability also divided by the number of workers); means and standard deviations are those of the quantity in their name, taken per setting. In exported tables and in plots, each column holds the quantity it is named after, and all columns are in the same order.",
  ["histories", "inputs"], "every kind of experiment, number of measurements and order in which benchmarks were performed",
  "No test imports or exports results; results are stored in the order in which benchmarks were performed, so mistakes show only when that differs from the number of workers.",
  [QC+"query/export.py", QC+"query/summarize.py"] + [QC+f"experiment/{k}/{f}.py" for k in ("partition_shape", "weak_scalability", "strong_scalability") for f in ("import_results", "postprocess_results")],
  [("derived quantities", QC+"experiment/strong_scalability/import_results.py"), ("exported tables", QC+"query/export.py")])
p("E01", "Temporary changes to library error state are undone on every exit",
  "Code that silences or redirects the error reporting of HDF5 or GDAL for the duration of a scope restores the previous state when the scope ends, on normal and error exits alike. Memory that HDF5 allocates for variable-length data is reclaimed once for the data space and type it was read with.",
  ["fault_sequences", "histories"], "every scope that changes error reporting and every exit from it",
  "State that is left behind affects later, unrelated calls; the tests do not look at it.",
  [H+"error_stack.cpp", GI+"error.hpp", G+"error.cpp", H+"vlen_memory.cpp", PY+"core/array.cpp"],
  [("scope guards", H+"error_stack.cpp")])
# ---------------------------------------------------------------- not applicable
p("X01", "A killed writer leaves earlier data readable",
  "When a process that writes to a dataset is killed at any moment, everything that was completely written and flushed before can still be read afterwards.",
  ["crash_points"], "every moment at which the process can die", "Tests never kill the process.",
  [H+"file.cpp"], [("flush", H+"file.cpp")])
p("X02", "Values survive a round trip through a file bit for bit",
  "For every supported element type, every value written to an array is read back as the same value after closing and reopening the file, by this and any other process and on any platform.",
  ["inputs", "histories"], "all values of all types", "The value space is unbounded for tests.",
  [H+"dataset.cpp"], [("conversion by HDF5", H+"dataset.cpp")])
p("X03", "Parallel array algorithms equal their serial definition for every partitioning",
  "Every local, focal, zonal, routing and global operation of the parallel framework yields the values of its serial definition, independent of the shape of the partitions, the number of localities and threads, and the schedule.",
  ["schedules", "configurations", "inputs"], "all partitionings, schedules and inputs", "Tests use a few partition shapes and one schedule per run.",
  ["source/framework/algorithm"], [("partitioned algorithms", "source/framework/algorithm")])
p("X04", "Asynchronous operations of the framework never deadlock or race",
  "A program composed of the framework's operations always completes, and no two tasks access the same partition without one happening before the other.",
  ["schedules"], "all task schedules", "Schedules cannot be enumerated by tests.",
  ["source/framework/partitioned_array"], [("futures between partitions", "source/framework/partitioned_array")])
p("X05", "Framework and data model agree when arrays are read and written in parallel",
  "Partitioned arrays written to and read from a dataset by any number of localities contain the same cells at the same positions as the in-memory arrays.",
  ["configurations", "schedules"], "all numbers of localities and partition shapes", "Needs a distributed run.",
  ["source/framework/io"], [("parallel I/O", "source/framework/io")])
p("X06", "Translating between formats preserves values, georeference and time",
  "Translating between a dataset and an external raster, CSV or JSON format preserves the values, their position in space and time, and no-data.",
  ["inputs"], "all datasets", "Tests compare a few files and are not built here.",
  ["source/data_model/translate", "source/data_model/utility"], [("converters", "source/data_model/translate")])
p("X07", "The viewer shows what is in the dataset",
  "The interactive viewer visualises every part of an open dataset without modifying it.",
  ["inputs"], "all datasets", "There are no tests.",
  ["source/view"], [("viewer", "source/view")])
p("X08", "Recorded durations are accurate",
  "The durations recorded for the runs of an experiment equal the elapsed time of the code that was timed, within the resolution of the clock.",
  ["schedules"], "all runs", "Elapsed time is a runtime quantity.",
  [QC+"stopwatch.cpp"], [("clock reads", QC+"stopwatch.cpp")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["id"]
        f.write(json.dumps(d) + "\n")
print(len(P))
