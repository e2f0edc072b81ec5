#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list is kept here so that it can be edited as text)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": observe, "hook_needed": None}})

CV, CH = "lib/src/Converter.cpp", "lib/include/VFC/Converter.h"
VF, VFH = "lib/src/VertexFormat.cpp", "lib/include/VFC/VertexFormat.h"
VV, VVH = "lib/src/VertexValue.cpp", "lib/include/VFC/VertexValue.h"
ID = "lib/include/VFC/IndexData.h"

p("C01", "Conversion preserves the drawn geometry",
  "A successful conversion draws exactly the primitives of the input, in the same order, with the same winding and the same per-vertex content, when every returned index buffer is drawn in turn with its base vertex (restart markers ending strips and fans; triangles with two identical corners draw nothing). Without output indices the vertices are the input positions in sequence. This holds however many index buffers the maximum index value forces.",
  ["inputs", "configurations"],
  "every primitive type, index sequence (with restarts and repeated or duplicate vertices), index types and maximum index value",
  "The tests split one hand-made mesh per primitive type; the behaviour at a split depends on how many indices precede it since the last restart, on which vertices repeat, and on what follows.",
  [CV, CH], [("emission loop", CV + " Converter::convert"), ("carrying vertices over a split", CV + " copyConnectedVertices")],
  ["Converter::getIndices", "Converter::getVertices"],
  [("index buffers", "one per base vertex", CH + " m_indexData"), ("last restart", "start of the current strip", CV + " lastRestartIndex")])
p("C02", "Index buffers are well-formed and stay inside their limits",
  "Every index in every returned buffer is at most the maximum index value and, added to the buffer's base vertex, names an existing output vertex; the first base is zero and bases strictly increase. List and patch buffers contain only whole primitives, restart markers occur only for strips and fans whose input had them, and no buffers are returned when no indices were requested. Every buffer has the requested type and its data is readable for its full count.",
  ["inputs", "configurations"],
  "every accepted mesh, primitive type, index type and maximum index value",
  "Tests look at a few meshes with one limit each; the limit interacts with the position of every repeated vertex.",
  [CV, ID], [("room check before each primitive", CV + " Converter::convert"), ("pointers set after emission", CV + " Converter::convert")],
  ["Converter::getIndices", "Converter::getVertexCount"])
p("C03", "Indexed output shares identical vertices and only those",
  "Within the vertex range of one index buffer no two output vertices are byte-identical across all output streams, and two positions share an index only if their converted vertices are byte-identical in every stream. A vertex range holds nothing but vertices its own indices use, apart from those of a strip or fan left unfinished by a split. Without output indices nothing is merged: there is one vertex per input position.",
  ["inputs", "configurations"],
  "every mesh, vertex format (any stride, one or several output streams), duplicate pattern and maximum index value",
  "The tests use meshes with few duplicates; a hash or comparison that skips bytes, a stream or a range is visible only for vertices that differ exactly there.",
  [CV], [("vertex hashing and comparison", CV + " VertexRef, VertexHash"), ("insert or reuse", CV + " addVertex")],
  ["Converter::getVertices", "Converter::getIndices"])
p("C04", "Index buffers split only when needed, and as late as guaranteed safe",
  "A new index buffer starts exactly when the current vertex range might not hold one more primitive: every buffer but the last covers more than (maximum index value + 1 - indices per primitive) vertices, where a strip or fan position counts as one. Its base vertex is the number of vertices output so far. No buffer is empty unless the mesh is empty, and with the default limit a mesh with fewer distinct vertices than the limit yields one buffer.",
  ["inputs", "configurations"],
  "every mesh, primitive type, patch size, index type and maximum index value",
  "Tests fix one limit per primitive type; off-by-one errors show only at particular vertex counts.",
  [CV], [("room check", CV + " Converter::convert"), ("default limits", ID + " maxIndexValue")],
  ["Converter::getIndices"])
p("C05", "Elements are matched by name, wherever they are stored",
  "Each output element takes its value from the one input element with the same name, whichever stream, position in the stream, stride, index type or index sequence that stream has, and lands at its own offset in its own output stream. Input elements nobody asked for have no effect on the output. Re-arranging the input or output elements into other streams or orders, or widening or expanding the indices, changes nothing else.",
  ["inputs", "configurations"],
  "every arrangement of named elements into input and output streams, with own indices per stream",
  "The tests use one or two arrangements, mostly with the element of interest first in its stream.",
  [CV, CH], [("element mapping", CV + " Converter::addVertexStream"), ("offset handling", CV + " Converter::convert")],
  ["Converter::getVertices"])
p("C06", "Element transforms do what they say for every value and format",
  "For an element with a transform, the output encodes 2v-1 (UNormToSNorm), v/2+1/2 (SNormToUNorm), the value scaled to its element's bounds (Bounds, for UNorm and SNorm outputs only) or v itself (Identity), each within the rounding of the output format and applied to every vertex. A transform set by name or by position affects that element alone and can be read back; an unknown name is reported and changes nothing.",
  ["inputs", "configurations"],
  "every value, input format, output format and transform",
  "The tests apply each transform to one element of one mesh.",
  [CV, CH, VV], [("transform switch", CV + " Converter::convert"), ("bounded encoding", VV + " VertexValue::toData")],
  ["Converter::getVertices", "Converter::getElementTransform"])
p("C07", "Reported bounds are the exact range of the referenced input values",
  "After a successful conversion the bounds reported for an element are the componentwise minimum and maximum of the untransformed input values that its stream's indices refer to (restart markers excluded), with the default (0, 0, 0, 1) for components the input does not have. Unreferenced vertices, other elements and other streams have no influence, and looking the bounds up by name or by position gives the same answer. Not-a-number values are ignored.",
  ["inputs", "configurations"],
  "every input, element position and index sequence",
  "The tests read bounds of elements that start their stream.",
  [CV, VVH], [("bounds pass", CV + " Converter::convert"), ("expandBounds", VVH)],
  ["Converter::getVertexElementBounds"])
p("C08", "Misuse is rejected, reported, and leaves the converter as it was",
  "In any sequence of calls, adding a stream fails exactly when data is missing, its number of indices differs from the earlier streams' or does not fit the primitive type, or an element is already supplied; converting fails exactly when the converter is invalid, was already converted, lacks an element, meets an index out of range, or meets a restart marker without output indices. Each failure calls the error function at least once, each success never does. A failed call leaves the converter usable: the later calls behave as if it had not been made.",
  ["histories", "inputs"],
  "every sequence of construct, add, set-transform and convert calls, valid and invalid",
  "The tests make each error once, directly after construction, and look at the return value.",
  [CV], [("addVertexStream checks", CV + " Converter::addVertexStream"), ("convert checks", CV + " Converter::convert")],
  ["return values", "error function"],
  [("index count", "fixed by the first accepted stream", CH + " m_indexCount")])
p("C09", "Exactly the usable converter configurations are accepted",
  "A converter is valid exactly when there is at least one output format, none is empty, the primitive type is valid, patch lists have at least one patch point, and, with output indices, the maximum index value can hold one primitive and does not exceed what the index type can represent (for strips and fans excluding the restart value). An invalid one reports an error at construction and refuses every later operation with an error instead of crashing. A valid one returns its configuration unchanged.",
  ["configurations", "histories"],
  "every combination of formats, index type, primitive type, patch points and maximum index value",
  "The tests construct a handful of configurations.",
  [CV, CH, ID], [("constructor checks", CV + " Converter::Converter"), ("limits", ID)],
  ["Converter::isValid", "error function"])
p("C10", "Conversion never touches memory outside the buffers it was given",
  "For any sequence of calls whose buffers have the declared sizes, the library reads only inside those buffers, writes only memory it owns, terminates, and never aborts; in particular every index is checked against its own stream's vertex count, and indices are only read up to that stream's own index count. Input buffers are never modified and may have any alignment the index type needs.",
  ["inputs", "histories"],
  "every call sequence, valid or rejected, with exactly sized buffers",
  "Unit tests run without bounds checking on the buffers and with consistent streams.",
  [CV, VV, ID], [("range check", CV + " Converter::convert"), ("count consistency", CV + " Converter::addVertexStream")],
  ["process under address checking", "input buffers after the call"])
p("C11", "A vertex format packs its elements in order without gaps",
  "After any sequence of append and clear calls a format holds the accepted elements in order, each at the offset where the previous one ended, and its stride is the sum of their sizes. Appending is refused, with no change, exactly for an invalid layout and type combination (reported first) or for a name already present (names are case-sensitive). Lookup, containment and equality answer according to that element list.",
  ["histories", "inputs"],
  "every sequence of append/clear/find/contains/compare operations",
  "The tests append a few elements and never continue after a refusal or a clear.",
  [VF, VFH], [("appendElement", VF), ("find/containsElements", VF)],
  ["VertexFormat accessors"], [("stride", "running size", VFH + " m_stride")])
p("C12", "Names, sizes and validity tables are complete and consistent",
  "Every layout, type and primitive has a distinct name that maps back to it in any letter case (layouts also under their colour name) and every other string maps to invalid; each layout's size is the sum of its component widths. A layout and type combination is valid exactly as documented (normalized only up to 16 bits, float from 16 bits, packed floats float only), and a vertex count fits a primitive exactly if it makes whole primitives (strips and fans: zero or enough for one).",
  ["inputs"],
  "every layout, type, primitive, letter case, vertex count and patch size, and strings that are no name",
  "Tests check a part of the tables with fixed spellings.",
  [VF], [("name tables", VF), ("validity switches", VF + " isElementValid, isVertexCountValid")],
  ["elementLayoutFromName and the other table functions"])
p("C13", "Decoding yields the value the bits stand for",
  "Reading any bit pattern of any valid layout and type gives the value it stands for: code/max for UNorm, the codes spread evenly from -1 to 1 for SNorm, the integer for UInt and SInt, the floating-point number for Float, components in the documented order and bit positions. Components the layout lacks read as 0, 0, 0 and 1. Data may be unaligned, exactly the layout's size is read, and floats of 8 or 10 bits or non-float packed floats are refused.",
  ["inputs"],
  "every bit pattern of every layout and type, at any alignment",
  "The tests decode a few values per layout.",
  [VV, VVH], [("fromData", VV)], ["VertexValue::fromData"])
p("C14", "Encoding yields the nearest representable value and saturates",
  "Writing any finite value to a layout and type stores, per component, the nearest representable value, out-of-range values saturating at the ends of the range for integer (also 64-bit), normalized and packed-float types and becoming infinite for half and single floats. The components do not influence each other (apart from the shared exponent format), sit at the documented bit positions, exactly the layout's bytes are written, and floats of 8 or 10 bits or non-float packed floats are refused.",
  ["inputs"],
  "every finite component value, layout and type",
  "The tests encode a few in-range values per layout and one clamp case.",
  [VV], [("toData", VV), ("pack helpers", VV)], ["VertexValue::toData"])
p("C15", "Values that fit survive encoding and decoding unchanged",
  "Decoding any code of a layout and type and encoding the result again in the same layout and type reproduces the same code (for 64-bit integers: the code rounded to double precision; for packed and other floats: the same number), and therefore converting a mesh to the format it already has keeps its bytes. Encoding preserves order: a larger value never gets a smaller code.",
  ["inputs"],
  "every code of every layout and type (not-a-number excluded)",
  "The tests round-trip a few values.",
  [VV], [("fromData/toData pairs", VV)], ["VertexValue::toData", "VertexValue::fromData", "Converter::getVertices"])
p("C16", "Bounds-normalized encoding spans the full range and can be undone",
  "Encoding a value relative to bounds stores the position of the value between minimum and maximum, per component, over the full UNorm or SNorm range (bounds with a representable difference): the minimum gets the lowest code, the maximum the highest, and decoding plus the bounds recovers the value within half a code step of the bounds' range. Components whose bounds coincide store the default, and types that are not normalized ignore the bounds.",
  ["inputs"],
  "every value, bounds, layout and type",
  "The tests use one set of bounds with unit-like ranges.",
  [VV], [("bounded toData", VV)], ["VertexValue::toData with bounds", "Converter::getVertices"])
p("C17", "Base64 coding is exact, total and strict",
  "Encoding any byte string gives its standard padded base64 text, and decoding that text gives the bytes back, appended to the given output. Decoding rejects, without crashing or reading past the end, every text that is not a sequence of four-character groups over the alphabet with padding only in the last one.",
  ["inputs"],
  "every byte string and every text",
  "The tests decode a few phrases and a few malformed texts.",
  ["tool/Base64.cpp"], [("encode/decode", "tool/Base64.cpp")], ["base64::encode", "base64::decode"])
p("C18", "Path operations compose",
  "A path is absolute exactly if it starts with a separator; the file name is what follows the last separator and the parent directory what precedes it (the root being its own parent, a bare name having an empty one). Joining puts exactly one separator between a directory and a relative path, leaves absolute paths and empty sides alone, and rejoining a path's parent directory and file name names the same file.",
  ["inputs"],
  "every path string",
  "The tests check a list of sample paths per function.",
  ["tool/Path.cpp"], [("path functions", "tool/Path.cpp")], ["path:: functions"])
p("C19", "Configuration documents are accepted exactly as documented",
  "A JSON document is accepted exactly if it is well-formed and has the documented structure (required members present with the documented types, enum names valid in any letter case, element names unique, optional members absent, null where allowed, or valid), and then every documented field is read faithfully, with the documented defaults and document order. Any other text of any size or depth is refused with at least one error message and no crash.",
  ["inputs"],
  "every JSON document and every malformed text",
  "The tests load one good document and a list of single mistakes.",
  ["tool/ConfigFile.cpp", "tool/ConfigFile.h"], [("load and readers", "tool/ConfigFile.cpp")], ["ConfigFile::load", "ConfigFile accessors"])
p("C20", "The result document describes the output completely and truthfully",
  "For any formats, bounds, data strings, counts and index buffers the result text is valid JSON that states exactly these: every stream with each element's name, layout, type, offset and bounds (as numbers that read back as the same doubles), the stride, the data string, the vertex count, and, when indices are used, the index type and every buffer's count, base vertex and data string, in order. Member strings with characters that need escaping read back unchanged, and bounds JSON cannot express never produce a truncated document.",
  ["inputs"],
  "every result with finite bounds; non-finite bounds must not yield a broken document",
  "The tests compare one document with a fixed text.",
  ["tool/ResultFile.cpp"], [("resultFile", "tool/ResultFile.cpp")], ["resultFile"])
p("C21", "The tool delivers exactly what the library converts",
  "For any valid configuration the tool's JSON on stdout, together with the embedded base64 data or the files in the output directory, carries exactly the vertices, indices, base vertices, formats and bounds that the library produces for that input, and exits with 0. It makes no difference whether the configuration comes from a file or from stdin, whether data is embedded or in files with absolute or configuration-relative paths, or how long the data and path strings are.",
  ["inputs", "configurations"],
  "every valid configuration, data source, data size and output mode",
  "There is one functional input file and no test runs the tool on it.",
  ["tool/main.cpp"], [("loadData/setupConverter/writeOutput", "tool/main.cpp")], ["stdout", "output files", "exit status"])
p("C22", "The tool fails cleanly and never claims success without a result",
  "Whenever any step fails (arguments, configuration, data files, conversion, creating the output directory, writing an output file or stdout) the tool exits with status 1, not by a signal, says why on stderr and prints no result document. Exit status 0 means that stdout carries a complete document and every file it names was completely written.",
  ["fault_sequences", "inputs"],
  "every single failing step: missing, unreadable or wrong-kind files, malformed data, full devices, closed stdout, impossible directories",
  "No test runs the tool.",
  ["tool/main.cpp"], [("error handling", "tool/main.cpp")], ["exit status", "stdout", "stderr", "output directory"])
p("C23", "Converters can be moved and outlive the caller's format objects",
  "Moving a converter (construction or assignment) at any point of its life, or letting the format objects passed to it go out of scope, changes no later result: adding streams, converting and reading results behave as on the unmoved converter, and previously obtained index data stays valid with the new owner. Converting the same input twice in separate converters gives identical results.",
  ["histories"],
  "every point in every call history at which a move can happen",
  "No test moves a converter.",
  [CV, CH], [("defaulted moves", CH), ("element mapping", CV + " Converter::addVertexStream")], ["Converter results after a move"])
p("C24", "Index helpers read, write and bound every index type",
  "Writing a value that fits into an index array and reading it back at the same position gives the value and changes no other position, for both index types; reading without data or without an index type gives the caller's default and writing is refused. The size, default maximum and restart value of each index type agree with its width (restart is the largest value, the default maximum is one less).",
  ["inputs"],
  "every index type, array length, position and value",
  "The helpers are only exercised indirectly.",
  [ID], [("getIndexValue/setIndexValue", ID)], ["index helper functions"])
p("C25", "Converters do not influence each other, in one thread or in several",
  "Calls on different converters, alternating in one thread or made by several threads at the same time, even with the same input buffers and formats, have exactly the results and error reports each converter has when used alone. A converted converter can be read by several threads at the same time: the vertices, indices and bounds they see are the same. Input shared between converters is never modified.",
  ["schedules", "histories"],
  "every interleaving of calls on separate converters, and concurrent reads of one",
  "The tests use one converter at a time in one thread.",
  [CV, CH, VV], [("Converter", CH), ("conversion", CV + " Converter::convert"), ("value coding", VV)], ["Converter results", "error function calls"])

p("C26", "Vertex values and bounds behave as four independent numbers",
  "A vertex value holds four numbers, each readable and writable by position without affecting the others; copies are independent of their original, a value built from fewer numbers has zeros in the rest and one in the fourth place, and two values are equal exactly if all four numbers are equal (unequal being the exact opposite). Growing an initial bound by values, in any order and grouping, gives the component-wise smallest and largest of them.",
  ["inputs", "histories"],
  "every sequence of writes, copies, comparisons and growths over every kind of number, NaN and infinities included",
  "The tests compare a few values with fixed numbers.",
  [VV], [("operators", "lib/include/VFC/VertexValue.h"), ("expand/resetBounds", VV)], ["VertexValue public members"])
p("C27", "The command line means the same however it is written",
  "Options of the tool may come in any order and in short or long form with the same effect; of a repeated option the last one counts and an empty name means not given. A help option reached before any error prints a help text naming every option, layout, type, index type, primitive type, transform and configuration member, exits with 0 and reads and writes nothing. An unknown argument or an option without its value ends with status 1 and a message before anything is read or written. No run touches anything but the output directory and the files it names in it.",
  ["inputs"],
  "every command line",
  "No test runs the tool.",
  ["tool/main.cpp"], [("argument loop", "tool/main.cpp main"), ("printHelp", "tool/main.cpp printHelp")], ["exit status", "stdout", "stderr", "file system"])
p("C28", "Error messages point at what is wrong",
  "Every message for a malformed configuration text starts with the configuration's name, and a syntax error with the line and column, counted from 1, at which the text stops being JSON. A well-formed configuration that is refused is explained by messages that quote the missing member or the offending value of a problem it really has. The library's messages name every vertex element that is supplied twice or not at all, an element whose indices are out of range, and no element that is fine. A failing tool run names on stderr the configuration, data file, output path, element or argument that is the cause.",
  ["inputs", "histories", "fault_sequences"],
  "every wrong configuration, every refused call and every failing step",
  "The tests check that messages exist or compare a few texts.",
  [CV, "tool/ConfigFile.cpp", "tool/main.cpp"], [("logError", CV), ("error reporting", "tool/ConfigFile.cpp"), ("messages on stderr", "tool/main.cpp")], ["error function messages", "stderr"])
p("C29", "Conversions can be chained, and undone when nothing was lost",
  "The data, indices and base vertices a finished converter hands out are, as they are, valid input streams of another converter, which then draws the same primitives; converting to the format, index type and limit the data already has changes nothing that is drawn. Converting to a format that can tell all values of the original apart and back again gives the original vertices bit for bit (one bit pattern per value), for every pair of element formats, the transforms between UNorm and SNorm and their inverse included.",
  ["inputs", "histories"],
  "every mesh and every pair of element formats of which the second tells the values of the first apart",
  "No test feeds a converter with the result of another one.",
  [CV, VV], [("conversion", CV + " Converter::convert"), ("value coding", VV)], ["Converter results as input of another converter"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
