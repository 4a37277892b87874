PROPS = []
NA = {}


def P(id, title, statement, over, quant, why, files, mech, harnesses=(), outside=()):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                      harnesses=list(harnesses), outside=list(outside)))


def H(pkg, fn, what, bounds, quick=30, thorough=240, **kw):
    return dict(pkg=pkg, fn=fn, what=what, bounds=bounds, quick_s=quick, thorough_s=thorough, **kw)


C = "internal/core/"
D = "internal/dump/"
S = "internal/storage/"

P("C01", "Every .hprof record is decoded to exactly the fields it encodes",
  "For every record kind the tool reads, every identifier size of 4 or 8 bytes and every field value, decoding a record yields exactly the values stored in the file, big-endian and with the signedness of the format. Exactly the record's bytes are consumed, however the underlying reader splits its data, so the next record starts at the right place.",
  ["inputs", "configurations"],
  "all field values of every record kind; identifier sizes 4 and 8; strings, frame lists, constant pools, static and instance field lists up to the stated lengths; readers delivering full or one-byte reads",
  "The tests decode one or two literal records per kind, all with whole-buffer readers; a swapped field, a wrong width for one identifier size or a signedness slip for large values is not reached.",
  [C + "base_parsers.go", C + "primitive_parsers.go", C + "sizes.go"],
  [("RecordParser methods", C + "base_parsers.go"), ("PrimitiveParser methods", C + "primitive_parsers.go")],
  [H("hcore", "H_TopRecords", "record header, UTF8, LOAD_CLASS, FRAME and TRACE", "strings <= 4 bytes (thorough 16), <= 3 frames (thorough 8)"),
   H("hcore", "H_SubRecords", "GC roots and object headers, and the sizes used to account for them", "none on field values"),
   H("hcore", "H_ClassDump", "class dumps with typed constants, static and instance fields", "<= 1 constant, <= 1 static, <= 2 instance fields (thorough 2, 2, 3), every type"),
   H("hcore", "H_Long", "records whose counts and lengths need all their bytes", "300 or 66000 frames or bytes of text; 300 or 65535 constants, static or instance fields; those at the ends and around 256 and 65536 arbitrary", quick=90, max_steps=2_000_000_000, depth=20000)],
  ["identifier sizes other than 4 and 8", "longer strings and lists than stated"])

P("C02", "Typed values decode bit-exactly and unknown types are rejected",
  "A value of each of the nine Java types decodes to the value its big-endian bytes denote, bit for bit, using the width the format prescribes. A type code the format does not define is reported as an error, never decoded as something else and never a crash, and a value can be read back only as the type it has.",
  ["inputs", "configurations"],
  "all 256 type codes, all payload bytes, both identifier sizes",
  "The tests use one literal per type and one unknown code; NaN payloads, sign bits, and the other 246 undefined codes are not exercised.",
  [C + "primitive_parsers.go", C + "types.go", C + "sizes.go"],
  [("ParseJavaValue", C + "primitive_parsers.go"), ("JavaValue accessors", C + "types.go")],
  [H("hcore", "H_Values", "one value of an arbitrary type code", "none: all codes and payloads")],
  [])

P("C05", "Indexing a dump keeps every record and finds every object",
  "After indexing any well-formed dump, every name, class, stack frame, stack trace, GC root and class definition in it can be read back from the index with unchanged contents and in file order, and nothing else appears. Every instance, object array and primitive array is found by its id at its exact place in the file, and the final position equals the size of the dump.",
  ["inputs", "histories"],
  "all dumps of the stated number of records over all 13 record kinds in any order, spread over one or more heap segments; both identifier sizes; all field values (ids distinct and increasing as a JVM writes them)",
  "The tests index one fixed dump with one record of each kind, so interactions between kinds, multiple segments and id widths are not covered.",
  [D + "parser.go", S + "small.go", S + "big.go", S + "index.go"],
  [("Parser.ParseHeapDump", D + "parser.go"), ("SmallRecordsWriteStorage", S + "small.go"), ("BigRecordsWriteStorage", S + "big.go")],
  [H("hdump", "H_Records", "arbitrary record sequences, indexed, stored, restored and queried", "2 records after the header (thorough 3), payloads of <= 2 elements", quick=60, thorough=600),
   H("hdump", "H_ManyRecords", "very many records of one kind", "6000 (thorough 70000) names, frames, traces, roots of each kind or class dumps, 1500 loaded classes; one number arbitrary", max_steps=2_000_000_000, depth=20000),
   H("hdump", "H_Long", "one record with many parts, or many objects or roots, between others", "130, 300 or 5000 (70000 for characters and frames) characters, frames, constants, fields, objects of each kind, roots (thorough also 20000); the first, middle and last arbitrary", quick=120, thorough=600, max_steps=2_000_000_000, depth=3000)],
  ["dumps with more records than stated", "encoding/gob itself (contract stub; sampled paths replay the real one)"])

P("C03", "The file header is read exactly and foreign files are refused",
  "The identifier size and the creation time (a millisecond clock) are taken from the header exactly as stored, after exactly 31 bytes. A file whose profile name is not the supported one, or whose identifiers are neither 4 nor 8 bytes wide, is refused with an error rather than read as something else.",
  ["inputs"],
  "all profile names of that length, all identifier sizes, all timestamps below 2^48 ms, full and short reads",
  "The tests use one valid header and one timestamp; clock values that overflow an intermediate unit and near-miss profile names are not reached.",
  [C + "file_header_parser.go", D + "parser.go"],
  [("ParseFileHeader", C + "file_header_parser.go"), ("ParseHeapDump", D + "parser.go"), ("ParseIdentifier", C + "primitive_parsers.go")],
  [H("hcore", "H_Header", "a valid header with arbitrary fields", "timestamps < 2^48 ms"),
   H("hcore", "H_Magic", "every other profile name", "names of the same length"),
   H("hcore", "H_IdSize", "every other identifier size, before each kind of record", "none on the size")],
  ["timestamps of 2^48 ms and more", "the byte after the profile name"])

P("C04", "A truncated or unreadable dump is always reported",
  "If a dump ends before its END record, wherever it is cut, or reading it fails with an I/O error at any byte, indexing reports an error. A partial dump is never taken for a complete one.",
  ["inputs", "faults"],
  "every cut point and every failing byte of every dump with one record of every kind, all field values; the end reported with or after the last bytes",
  "The tests cut a few records at one or two places each and never inject a failing read into indexing.",
  [D + "parser.go", C + "base_parsers.go", C + "primitive_parsers.go", C + "file_header_parser.go"],
  [("ParseHeapDump", D + "parser.go"), ("skip", D + "parser.go")],
  [H("hdump", "H_Truncated", "a dump cut at an arbitrary byte", "one record of each kind and shape", quick=60),
   H("hdump", "H_ReadError", "a read error at an arbitrary byte, once or for good", "one record of each kind and shape", quick=60),
   H("hcore", "H_Broken", "one record that is cut or unreadable at an arbitrary byte, whatever comes after it", "every kind of record; class dumps with one constant, static and field of the same type")],
  ["dumps of several records (the parser keeps no state between records other than storages)"])

P("C06", "Objects of any size are found at their exact place",
  "However long the objects of a dump are, and wherever heap segments begin and end, every instance and array recorded after them is found at its exact offset (also beyond 4 GiB), reading it there yields its own header, and the final position equals the size of the dump.",
  ["inputs"],
  "all payload lengths up to 2^32-1 elements per object, all element types, both identifier sizes, objects in one or several segments",
  "The tests index objects of one element, so element size, length arithmetic and 32-bit overflow never matter.",
  [D + "parser.go", D + "parsed_accessor.go", C + "sizes.go", S + "big.go", S + "index.go"],
  [("ParseHeapDump", D + "parser.go"), ("SizeInfo.OfObject", C + "sizes.go"), ("ParsedAccessor", D + "parsed_accessor.go")],
  [H("hdump", "H_Large", "objects of arbitrary length over a sparse file", "2 objects (thorough 3)")],
  ["more objects than stated"])

P("C07", "Per-class counters count every object exactly once",
  "The stored statistics hold, for every class, the exact number of its instances and of its object arrays and their total elements, and for every primitive type the exact number of arrays and their total elements. Nothing is counted twice, under a wrong key, or left out, and the statistics survive storing.",
  ["inputs", "histories"],
  "all sequences of the stated number of objects, all classes (equal or different), all lengths",
  "The tests count one object of each kind; accumulation over objects of the same and of different classes is not checked.",
  [S + "meta.go", D + "parser.go"],
  [("MetaWriteStorage.AddInstance", S + "meta.go"), ("MetaReadStorage.RestoreFrom", S + "meta.go")],
  [H("hdump", "H_Counters", "sequences of objects of arbitrary classes and lengths", "3 objects (thorough 4)", quick=90),
   H("hdump", "H_Runs", "every sequence of objects of a few classes and types", "6 objects (thorough 7) of 2 classes, an array class and 2 primitive types, both identifier sizes", quick=60)],
  ["more objects than stated", "encoding/gob itself (contract stub; sampled paths replay the real one)"])

P("C08", "No input bytes crash or hang the indexer",
  "Whatever bytes a file contains, indexing it terminates with a result or an error: it never panics and never loops, and no count or length that a record claims makes it reserve more memory than a record can fill (4 GiB). A length too small for its own record is an error, not a huge length. An index that was accepted can be read back.",
  ["inputs"],
  "all byte strings of the stated length after a valid header, inside and outside heap segments, both identifier sizes",
  "The tests only feed well-formed records and short reads.",
  [D + "parser.go", C + "base_parsers.go", C + "primitive_parsers.go", C + "sizes.go"],
  [("ParseHeapDump", D + "parser.go"), ("RecordParser methods", C + "base_parsers.go")],
  [H("hdump", "H_Arbitrary", "arbitrary bytes after the header", "24 bytes (thorough 30)", quick=60),
   H("hdump", "H_ShortRecord", "a text record whose length is below that of its id", "up to 3 bytes behind the id"),
   H("hdump", "H_ArbitraryRecord", "a record of each kind, all its fields, lengths and counts arbitrary, and arbitrary bytes behind it", "8 bytes behind the fixed part (thorough 12), 8 more for classes", quick=60)],
  ["longer inputs"])

P("C09", "Unknown content is skipped as a whole or rejected, never misread",
  "Garbage-collection roots of kinds the tool does not report (unknown, native stack, thread block, monitor) are skipped with all their bytes, so everything after them is still read correctly. Record and sub-record codes and value types the format does not define are rejected, or skipped as a whole, and never change how the rest of the dump is read.",
  ["inputs"],
  "all undefined codes and types, all contents of skipped records, followed by every kind of record",
  "The tests contain no record outside the supported kinds, although JVMs before 9 write monitor roots.",
  [D + "parser.go", C + "tags.go", C + "base_parsers.go"],
  [("ParseHeapDump", D + "parser.go")],
  [H("hdump", "H_Unsupported", "one foreign record before an arbitrary one", "1 foreign and 1 supported record")],
  ["HEAP DUMP (0x0c) records and dumps of profile 1.0.1"])

P("C10", "The offset index answers every lookup correctly",
  "Every key stored in the index is found with exactly its value and no other key is found, for any number of entries, any batch size and any position of batch boundaries, also in index files far beyond 4 GiB. Keys that go backward are refused when stored, and a damaged, short or unreadable index file is reported instead of answered from.",
  ["inputs", "configurations", "faults"],
  "all increasing keys and all values, all queried keys, the stated numbers of entries and batch sizes; index files of up to 2^36 entries with arbitrary contents of that shape",
  "The tests store a handful of literal keys; absent keys between entries, batch boundaries and damaged files are sampled at best.",
  [S + "index.go"],
  [("IndexRecordsWriteStorage.Put/Close", S + "index.go"), ("IndexRecordsReadStorage.Get", S + "index.go")],
  [H("hstorage", "H_Index", "store, then look an arbitrary key up", "0 to 5 entries (thorough 7), batch sizes 1 to 4"),
   H("hstorage", "H_Backward", "a key that goes backward", "up to 4 earlier keys (thorough 5), batch sizes 1 to 3"),
   H("hstorage", "H_BadIndex", "damaged, short and unreadable files", "up to 3 entries"),
   H("hstorage", "H_VastIndex", "lookups in huge files", "6 sizes up to 2^36+1 entries, 4 positions each, keys evenly spaced from an arbitrary base"),
   H("hstorage", "H_LongIndex", "indexes of many entries", "127, 128, 300 or 1000 entries (thorough also 5000), 6 batch sizes, keys from an arbitrary base", quick=90, max_steps=2_000_000_000, depth=20000),
   H("hstorage", "H_ManyBatches", "indexes of very many batches", "600 or 5000 entries (thorough also 140000), 6 batch sizes from 1 to 256, one offset arbitrary", max_steps=2_000_000_000, depth=20000)],
  ["more entries than stated with arbitrary keys"])

P("C12", "Failures to write, close or read the index are never swallowed",
  "If writing or closing any file of the index fails, storing the index reports an error, so a damaged index is never presented as complete. Index files are closed exactly once. A record file that is cut or unreadable is reported when it is opened.",
  ["faults"],
  "every subset of failing index files, failing in a write or in close; every failing write of an index; all batch sizes stated",
  "The tests never make a write or a close fail.",
  [S + "index.go", S + "big.go", S + "small.go", S + "meta.go", D + "parser.go"],
  [("IndexRecordsWriteStorage.Close", S + "index.go"), ("combineErrors", S + "big.go"), ("ParseHeapDump", D + "parser.go"), ("SerializeTo / RestoreFrom", S + "small.go")],
  [H("hstorage", "H_WriteFail", "a failing write or close of one index file", "up to 5 entries, batch sizes 1 to 3"),
   H("hstorage", "H_DiskFail", "any subset of failing files while indexing a dump", "3 objects"),
   H("hstorage", "H_RecordFiles", "failing, cut and unreadable record files", "one dump"),
   H("hstorage", "H_ReadClose", "closing an opened index", "any subset of failing files")],
  ["encoding/gob itself (contract stub; sampled paths replay the real one)"])

J = "internal/java/"

P("C13", "Objects are read by id, in any order, and absent ids are reported",
  "Asking for an instance, object array or primitive array by id yields the header and contents of exactly that object, whatever was asked for before. An id that names no object of the kind is reported as an error, and so is a dump that cannot be read any more.",
  ["inputs", "histories", "faults"],
  "all ids asked for (present, absent, of another kind), all contents, sequences of queries, full and short reads, failing seeks and reads",
  "The tests ask once for one object of each kind.",
  [D + "parsed_accessor.go", S + "index.go", S + "big.go"],
  [("ParsedAccessor.GetHprofGcInstanceDump/GetHprofGcObjArray/GetHprofGcPrimArray", D + "parsed_accessor.go"), ("IndexRecordsReadStorage.Get", S + "index.go")],
  [H("hjava", "H_Accessor", "sequences of queries for arbitrary ids", "2 queries (thorough 3) on 3 or 6 objects", quick=60),
   H("hjava", "H_AccessorFail", "a dump that cannot be read or positioned", "one object of each kind"),
   H("hfs", "H_Large", "objects looked up in a large dump", "a dump of 120 KB with hundreds of records of each kind", quick=60, max_steps=2_000_000_000, depth=20000)],
  ["longer query sequences (a query depends on earlier ones only through the file position)"])

P("C14", "Field lookup follows the class hierarchy and the layout of instances",
  "The value of a field is that of the first class with a field of this name, going from the object's class up its superclasses, read at the offset behind all fields declared before it, with its declared type, and the class that declares it is named. A field the hierarchy lacks, or an object too short to hold it, is reported as an error.",
  ["inputs", "configurations"],
  "all field names (equal, different, shadowing), all types, all contents, hierarchies of the stated depth, objects long enough and too short",
  "The tests look three int fields up in one hierarchy; histories of several lookups, widths before the field, shadowing, 4-byte identifiers and short objects are not checked.",
  [J + "heap.go", C + "sizes.go"],
  [("NormalObject.GetFieldValueByName", J + "heap.go"), ("findField", J + "heap.go"), ("SizeInfo.OfType", C + "sizes.go")],
  [H("hjava", "H_Fields", "an arbitrary field of arbitrary classes", "2 classes (thorough 3) of 1-2 and 0-1 fields, objects of 7 and 18 bytes (thorough also 30)", quick=120, thorough=600),
   H("hjava", "H_SameNames", "two objects of classes whose names and field names may be equal or run into one another, read again and again", "2 classes, unrelated or one below the other, names in one record or two; names of 1-2 bytes, 3 field names; 2 reads (thorough 3)", quick=120, thorough=600),
   H("hjava", "H_Together", "objects of two dumps held at once and asked for their fields in any order", "8 objects of 4 classes in 2 dumps of either identifier size, 2 fields (thorough 3) asked for, arbitrary contents"),
   H("hjava", "H_Deep", "many superclasses or many fields", "20, 130, 300 or 1000 (thorough also 4000) classes of one field or fields of one class, arbitrary values", max_steps=2_000_000_000, depth=20000),
   H("hjava", "H_FarFields", "fields far into an object", "a field behind 270 or 8300 others (thorough also 250 and 8000) of 8 bytes, arbitrary values", max_steps=2_000_000_000, depth=20000)],
  ["deeper hierarchies and more fields"])

P("C15", "Strings and object arrays are read as the Java program sees them",
  "A java.lang.String, in either of its representations, yields exactly its text (as UTF-8). An object array yields its class and all its element references in order, for both identifier sizes. Anything that is not a string, or cannot be read completely, is refused with an error instead of yielding garbage.",
  ["inputs", "configurations", "faults"],
  "all Latin-1 and all UTF-16 contents (surrogates included) of the stated length, all element references; full and short reads",
  "The tests read one ASCII string; non-ASCII text and object arrays of 4-byte dumps are not covered (both were wrong).",
  [J + "heap.go", D + "parsed_accessor.go"],
  [("Heap.ParseJavaString", J + "heap.go"), ("Heap.ParseObjectArrayFull", J + "heap.go")],
  [H("hjava", "H_Strings", "arbitrary text in both representations", "3 Latin-1 or 2 UTF-16 units (thorough 5 and 3); alone, after and between two others, one with the same hash"),
   H("hjava", "H_NotStrings", "values that are no strings", "9 kinds of wrong values; classes whose name differs in one byte, or by one more at either end or one less"),
   H("hjava", "H_ObjArray", "arbitrary elements", "0 to 3 elements (thorough 7)"),
   H("hjava", "H_LongStrings", "long texts", "130, 300 or 5000 characters (thorough also 20000), up to 3 of them arbitrary", max_steps=2_000_000_000, depth=20000),
   H("hjava", "H_LongArray", "long arrays", "130, 300 or 5000 elements (thorough also 70000), 3 of them arbitrary", max_steps=2_000_000_000, depth=20000)],
  ["longer strings and arrays", "strings of Java 8 and before (char[]), which the tool refuses", "dumps of big-endian machines"])

P("C16", "A class comes with its complete superclass chain or an error",
  "Reading a class yields its name, static fields with their values, instance fields in order, and all its superclasses up to the root. If any part is missing from the dump, or a class is its own superclass directly or through others, an error is reported; it never loops and never returns a partial class.",
  ["inputs"],
  "all superclass references between the classes (chains, cycles, dangling), all names, all static field types and values, each kind of missing record",
  "The tests read one complete hierarchy; cycles made the tool overflow its stack.",
  [J + "heap.go", S + "small.go"],
  [("Heap.ParseClass", J + "heap.go")],
  [H("hjava", "H_Class", "arbitrary superclass references and missing records", "3 classes (thorough 4); 4 orders of asking for one or two of them, again and again"),
   H("hjava", "H_SameNames", "two objects of classes whose names and field names may be equal or run into one another, read again and again", "2 classes, unrelated or one below the other, names in one record or two; names of 1-2 bytes, 3 field names; 2 reads (thorough 3)", quick=120, thorough=600),
   H("hjava", "H_Deep", "many superclasses or many fields", "20, 130, 300 or 1000 (thorough also 4000) classes of one field or fields of one class, arbitrary values", max_steps=2_000_000_000, depth=20000)],
  ["more classes"])

F = "internal/format/"

P("C17", "Signatures are shown as Java source types",
  "A method descriptor is shown as its argument types in order, separated by commas, and its return type, and a field descriptor as its type: primitive types by their names, classes by their dotted names whatever characters those contain, and one pair of brackets per array dimension. No text found in a dump in place of a descriptor makes the rendering fail.",
  ["inputs"],
  "all descriptors of up to 2 arguments over all types, up to 3 dimensions, class names of arbitrary characters the class file format permits (also non-ASCII); all byte strings of 3 bytes (thorough 4)",
  "The tests use five literal descriptors; letters and parentheses inside class names that are also codes, and dimensions carried over to later arguments are not covered.",
  [F + "format.go"],
  [("Signature", F + "format.go")],
  [H("hformat", "H_Signature", "method descriptors", "up to 2 arguments (thorough 3), class names of 3 bytes alone, 1 byte beside others"),
   H("hformat", "H_Type", "field descriptors", "class names of 1 to 4 bytes (thorough 5), up to 3 dimensions"),
   H("hformat", "H_AnySignature", "arbitrary text", "3 bytes (thorough 4)"),
   H("hformat", "H_Long", "long descriptors", "40 or 255 arguments, up to 255 dimensions, names of 1, 130, 300 or 2000 bytes (thorough also 9000), 1 of them arbitrary", max_steps=2_000_000_000, depth=20000),
   H("hformat", "H_KnownTypes", "descriptors with names as they occur in dumps", "47 names, one byte among the last 8 (thorough 24) replaced by any other or one added at either end, after all the others", max_steps=2_000_000_000, depth=20000)],
  ["longer class names, more arguments"])

P("C18", "Sizes and line numbers are shown as the quantities they are",
  "A size in bytes is shown in whole units (rounded down) of the largest of B, K, M and G (powers of 1024) that fits. A line number is shown as that number, and the special values as unknown, compiled or native.",
  ["inputs"],
  "all sizes from 0 to 2^62, all 2^32 line numbers",
  "The tests use one size per unit and a few line numbers; boundaries such as 1023, 1024 and 1 GiB are where units go wrong.",
  [F + "format.go", C + "types.go"],
  [("Size", F + "format.go"), ("LineNumber.String", C + "types.go")],
  [H("hformat", "H_Size", "every size", "0 <= size <= 2^62, alone and after another"),
   H("hformat", "H_Units", "sizes at and around multiples of the units and of their quarters", "18 multiples of each unit, 4 quarters, up to a byte more or less"),
   H("hformat", "H_LineNumber", "every line number", "none"),
   H("hformat", "H_Lines", "line numbers after others", "those up to 5000 and next to powers of 2, then every third again, then an arbitrary one", max_steps=2_000_000_000, depth=20000)],
  ["negative sizes"])

P("C19", "Class names are shown in source form without other changes",
  "A class name is shown with its package separators as dots and every other byte unchanged.",
  ["inputs"],
  "all names of up to 7 bytes (thorough 11)",
  "The tests use two literal names.",
  [F + "format.go"],
  [("ClassName", F + "format.go")],
  [H("hformat", "H_ClassName", "arbitrary names", "0 to 7 bytes (thorough 11)"),
   H("hformat", "H_LongClassName", "long names", "40 or 300 bytes, 2 in 37 of them arbitrary", max_steps=2_000_000_000, depth=20000),
   H("hformat", "H_KnownNames", "names as they occur in dumps", "47 names, one byte among the last 8 (thorough 24) replaced by any other or one added at either end, alone and in array types, before and after all the others", max_steps=2_000_000_000, depth=20000)],
  ["longer names"])

P("C26", "A thread status is shown as the state the JDK derives from it",
  "The status word of a thread is shown as the java.lang.Thread.State that the JDK derives from it (RUNNABLE, BLOCKED, WAITING, TIMED_WAITING, TERMINATED, NEW), whichever other bits are set.",
  ["inputs"],
  "all 2^32 status words",
  "The tests use the status word 1 only, and expect what the JDK does not say about it.",
  ["internal/threads/models.go"],
  [("ThreadStatus.String", "internal/threads/models.go")],
  [H("hformat", "H_Status", "every status word", "none"),
   H("hformat", "H_Statuses", "every status word after every other", "words with a state of their own")],
  [])

O = "internal/objects/"
U = "internal/summary/"
T = "internal/threads/"
W = "internal/output/"

P("C20", "Object statistics have one entry per class and totals that add up",
  "The object statistics have exactly one entry per class or array type that has objects, named in source form (classes of the same name stay separate), with the number of its objects and their total size: instances by the instance size of their class, array elements by the size of their type (of an identifier for object arrays). The totals are the sums over all entries. Objects of a class the dump does not describe are reported as an error.",
  ["inputs", "configurations"],
  "all counts and element counts up to 2^32-1, all instance sizes up to 2^31-1, all combinations of primitive arrays, object arrays and instances, equal and different class names, both identifier sizes",
  "The package has no tests of its own.",
  [O + "objects.go", J + "heap.go", F + "format.go"],
  [("GetObjects", O + "objects.go")],
  [H("hobjects", "H_Totals", "arbitrary statistics of a dump", "4 primitive types at a time, 2 object array classes, 2 instance classes; class names of 2 bytes"),
   H("hobjects", "H_ManyTotals", "statistics of many classes", "20, 70 or 400 classes (thorough also 2000) and as many array classes, one of them arbitrary", max_steps=2_000_000_000, depth=20000)],
  ["the order of the entries (see C21)", "object array classes that share one name (as two class loaders produce)"])

P("C21", "The objects report lists every class, largest first, with its share",
  "The text report shows the totals and one row per entry, in descending order of the total size or count as asked for (the other one breaks ties by name and then by the other number), each number with its share of the total in whole percent (0 of an empty total), in columns wide enough for every row.",
  ["inputs"],
  "all sizes and counts up to 2047, all one-byte names (equal or different, also with non-ASCII characters), both orders, 0 to 2 entries (thorough 3 with numbers up to 3)",
  "The tests print two literal objects.",
  [W + "objects.go", F + "format.go"],
  [("ObjectsPlain", W + "objects.go"), ("getPrintItems", W + "objects.go")],
  [H("hobjects", "H_Report", "arbitrary entries", "up to 2 entries with numbers of up to 4 digits (thorough also 3 entries with numbers up to 3)", quick=200, thorough=600),
   H("hobjects", "H_Shares", "shares of the total at and around every whole percent", "8 totals up to 2^56, 2 entries", max_steps=2_000_000_000, depth=20000),
   H("hobjects", "H_ManyRows", "very many classes", "6000 (thorough 30000) entries, one name with arbitrary characters", quick=60, max_steps=2_000_000_000, depth=20000),
   H("hobjects", "H_LongReport", "reports of many entries", "12, 40 or 200 entries (thorough also 500) with large numbers, with and without ties, names of up to 300 bytes; one number arbitrary", max_steps=2_000_000_000, depth=20000),
   H("hobjects", "H_LongName", "very long names", "a name of 300, 700, 5000 or 70000 bytes, 3 of them arbitrary", max_steps=2_000_000_000, depth=20000)],
  ["larger numbers (their formatting is C18)", "more entries"])

P("C22", "The heap section of the summary counts everything in the dump",
  "The summary shows the number of loaded classes (each class object once), of GC roots of all reported kinds, of all objects (instances, object arrays, primitive arrays) and the sum of their sizes, each exactly. A dump with instances of an unknown class is reported as an error.",
  ["inputs", "configurations"],
  "all counts and element counts up to 2^32-1, all instance sizes up to 2^31-1, any number of roots of each kind up to the bound, classes loaded once or twice, both identifier sizes",
  "The package has no tests of its own.",
  [U + "summary.go", O + "objects.go"],
  [("GetSummary", U + "summary.go")],
  [H("hsummary", "H_Heap", "arbitrary statistics and roots", "up to 2 roots of a kind (thorough 3), 2 primitive types, 2 object array classes, 2 instance classes"),
   H("hsummary", "H_ManyRoots", "many classes, objects and roots", "150, 300 or 3000 (thorough also 20000) of each, an arbitrary instance size", max_steps=2_000_000_000, depth=20000)],
  [])

P("C23", "System properties are complete and sorted, or an error",
  "When asked for, the summary lists every system property of the dump exactly once with its value, in the order of the keys, however the entries are spread over and chained in the hash table. If the table or one of its entries cannot be read completely (missing class or object, null or non-string key or value, dangling or cyclic chain) an error is reported instead of a partial list, and it terminates.",
  ["inputs", "faults"],
  "all key and value texts of the stated length (ASCII, distinct keys), every distribution of the entries over buckets, each kind of unreadable entry, every dangling reference",
  "The package has no tests of its own; chained entries used to be lost.",
  [U + "summary.go", J + "heap.go"],
  [("GetSummary", U + "summary.go")],
  [H("hsummary", "H_Properties", "arbitrary properties in arbitrary buckets", "0 to 3 properties in up to 3 buckets, keys of 1-2 bytes, values of 0-1 bytes"),
   H("hsummary", "H_PropertiesFail", "entries that cannot be read", "9 kinds of damage"),
   H("hsummary", "H_ManyProperties", "large tables", "40, 70 or 500 properties (thorough also 3000) in 1, 16 or 128 buckets, 40 in 70000; texts of up to 300 characters", max_steps=2_000_000_000, depth=20000),
   H("hsummary", "H_VeryLongProperties", "very long keys and values", "a key or a value of 700 or 9000 characters (thorough also 70000), 3 of them arbitrary", max_steps=2_000_000_000, depth=20000)],
  ["hash tables that contain tree bins", "more properties"])

P("C24", "Environment and uptime are those of the dumped JVM",
  "The environment section shows the values of the system properties for operating system, architecture, Java home, version, VM name, VM version, VM info and vendor, each under its own label and empty if the dump lacks it. The uptime is the time from the recorded start of the JVM to the creation time of the dump, to the millisecond (negative if the dump bears the earlier time).",
  ["inputs", "configurations"],
  "all property values of 1-2 ASCII bytes, any one property missing; all pairs of start and creation times up to 2^47 ms since 1970 that are less than 2^42 ms (139 years) apart; both identifier sizes",
  "The package has no tests of its own.",
  [U + "summary.go", C + "file_header_parser.go"],
  [("GetSummary", U + "summary.go"), ("ParseFileHeader", C + "file_header_parser.go")],
  [H("hsummary", "H_Env", "arbitrary values of the properties", "8 properties, one of them possibly missing; 54 standard properties with other keys, or one whose key is like the missing one"),
   H("hsummary", "H_Uptime", "arbitrary start and creation times", "times < 2^47 ms, less than 2^42 ms apart"),
   H("hsummary", "H_Uptimes", "uptimes at and around the units of time", "11 units and 4 multiples, up to a millisecond more or less, of either sign; 2 times")],
  ["the text form of a duration (time.Duration.String of the standard library)"])

P("C25", "The thread dump shows every thread with its own frames and locals",
  "Every thread object root yields one thread with the name, id, priority, daemon flag and status stored in its object (fields of java.lang.Thread, also in subclasses), and the frames of the stack trace that belongs to its thread serial, in order, each with its method, signature, file, class and line; names missing from the dump are shown as unknown. Every JNI or Java local root appears at exactly the frame of the thread it names (JNI locals first, each kind in file order), with the class of the object it refers to, and nowhere else. A missing or unusable thread object, field, trace, frame, class or local is reported as an error.",
  ["inputs", "configurations"],
  "all field values, all thread serials, all references from traces to frames, frames to names and classes, locals to objects, threads and frames (present, equal, dangling), each kind of missing or wrongly typed field; both identifier sizes",
  "The package has no tests of its own.",
  ["internal/threads/threads.go", J + "heap.go", D + "parsed_accessor.go", S + "small.go"],
  [("GetThreadDump", T + "threads.go")],
  [H("hthreads", "H_Fields", "arbitrary thread objects", "1 to 2 threads (thorough 3), names of 0-2 ASCII bytes"),
   H("hthreads", "H_Frames", "arbitrary references between threads, traces, frames, names and classes", "2 threads, 2 traces of up to 2 frames (thorough 3), 2 frame records, 3 names, 2 classes; one of a frame's references arbitrary at a time", quick=120, thorough=400),
   H("hthreads", "H_Locals", "arbitrary locals", "0 to 2 locals (thorough 3), 3 frames in 2 threads, 5 kinds of objects", quick=120, thorough=400),
   H("hthreads", "H_Incomplete", "threads that cannot be read", "16 kinds of damage"),
   H("hthreads", "H_Crowd", "very many threads", "3000 (thorough 20000) threads, one priority arbitrary", max_steps=2_000_000_000, depth=20000),
   H("hthreads", "H_Many", "many threads and deep stacks", "13 to 300 threads (thorough also 1100), one with 141 to 1101 frames (thorough also 5001) and 150 locals, names of 300 characters", quick=90, thorough=600, max_steps=2_000_000_000, depth=20000)],
  ["more threads, frames and locals", "thread objects of JDK 19 and later, whose fields live elsewhere (reported as an error)"])

P("C27", "The threads report shows every thread, frame and local as in Java source",
  "The text report has, in ascending order of the thread ids, one block per thread: its name, id, priority, status and daemon flag, then one line per frame with return type, class, method and argument types in source form and the location (file and line; file only if the line is unknown; nothing if the file is unknown), and, only if asked for, one line per local with its type in source form.",
  ["inputs"],
  "all ids, priorities and line numbers of 32 bits (one at a time), all names of the stated lengths (printable ASCII), all kinds of locations, signatures and locals, with and without locals",
  "The tests print one literal thread.",
  [W + "threads.go", F + "format.go"],
  [("ThreadsPlain", W + "threads.go")],
  [H("hout", "H_Threads", "arbitrary thread dumps", "0 to 2 threads, one of them with up to 2 frames and 2 locals per frame; one of the numbers with all its digits, the others with one", quick=90, thorough=240),
   H("hout", "H_Alike", "frames whose texts, written one after the other, may be the same", "2 frames with classes, methods, files and lines of 1-2 characters"),
   H("hout", "H_Crowd", "very many threads", "6000 (thorough 20000) threads, one name of 3 arbitrary letters", max_steps=2_000_000_000, depth=20000),
   H("hout", "H_LongThreads", "many threads, deep stacks, long texts", "13, 40 or 300 threads (thorough also 1100), one with 130, 300 or 2000 frames (thorough also 5000), one of those with 140 locals; one text of 300 characters, arbitrary in 3", max_steps=2_000_000_000, depth=20000),
   H("hout", "H_VeryLongThreads", "few facts, one of them a very long text", "one text of 700 or 9000 characters (thorough also 70000), 3 of them arbitrary", thorough=600, max_steps=2_000_000_000, depth=20000)],
  ["more threads, frames and locals", "threads with the same id"])

P("C28", "The summary report shows every fact under its label",
  "The text report of the summary has the sections Environment, Heap and System, and Properties if they were asked for, with one line per fact: its label, and its value without surrounding blanks, aligned behind the longest label. Nothing is lost or shown under another label.",
  ["inputs"],
  "all values of the stated lengths (printable ASCII, with and without surrounding blanks), all 32-bit numbers, 0 to 2 properties with keys longer and shorter than the labels",
  "The tests print one literal summary.",
  [W + "summary.go", F + "format.go"],
  [("SummaryPlain", W + "summary.go")],
  [H("hout", "H_Summary", "arbitrary summaries", "values of 0 to 3 bytes, up to 2 properties, one arbitrary number at a time"),
   H("hout", "H_LongSummary", "many properties and long texts", "20, 140 or 1000 properties (thorough also 5000); one text of 300 characters, arbitrary in 3", max_steps=2_000_000_000, depth=20000),
   H("hout", "H_VeryLongSummary", "few facts, one of them a very long text", "one text of 700 or 9000 characters (thorough also 70000), 3 of them arbitrary", thorough=600, max_steps=2_000_000_000, depth=20000)],
  ["longer values", "values with line breaks inside"])

P("C30", "Coloured reports say the same as plain ones",
  "On a terminal with colours, each report has the same text as the plain report, apart from the colour codes and from the indentation of frames and locals (tabs).",
  ["inputs", "configurations"],
  "the same reports as in C21, C27 and C28, with one-digit numbers",
  "No test covers the coloured reports.",
  [W + "threads.go", W + "summary.go", W + "objects.go", W + "colors.go"],
  [("ThreadsPlainColor", W + "threads.go"), ("SummaryPlainColor", W + "summary.go"), ("ObjectsPlainColor", W + "objects.go")],
  [H("hout", "H_ThreadsColor", "arbitrary thread dumps", "0 to 2 threads, one of them with up to 2 frames and 2 locals per frame; one of the numbers with all its digits, the others with one", quick=90, thorough=240),
   H("hout", "H_SummaryColor", "arbitrary summaries", "values of 0 to 3 bytes, up to 2 properties"),
   H("hout", "H_ObjectsColor", "arbitrary objects", "0 to 2 entries with numbers up to 7"),
   H("hout", "H_CrowdColor", "very many threads", "1500 (thorough 5000) threads, one name of 3 arbitrary letters", quick=60, max_steps=2_000_000_000, depth=20000),
   H("hout", "H_LongThreadsColor", "many threads, deep stacks, long texts", "13 or 40 threads (thorough also 300), one with 130 or 300 frames (thorough also 2000), one of those with 140 locals; one text of 300 characters, arbitrary in 3", thorough=600, max_steps=2_000_000_000, depth=20000),
   H("hout", "H_VeryLongThreadsColor", "few facts, one of them a very long text", "one text of 700 or 9000 characters (thorough also 70000), 3 of them arbitrary", thorough=600, max_steps=2_000_000_000, depth=20000),
   H("hout", "H_LongSummaryColor", "many properties and long texts", "20 or 140 properties (thorough also 1000); one text of 300 characters, arbitrary in 3", thorough=600, max_steps=2_000_000_000, depth=20000),
   H("hout", "H_VeryLongSummaryColor", "few facts, one of them a very long text", "one text of 700 or 2000 characters (thorough also 9000), 3 of them arbitrary", thorough=600, max_steps=2_000_000_000, depth=20000),
   H("hout", "H_LongObjectsColor", "many entries", "13 or 140 entries (thorough also 1000), a name of 300 characters", thorough=600, max_steps=2_000_000_000, depth=20000),
   H("hout", "H_VeryLongObjectsColor", "few facts, one of them a very long text", "one text of 700 or 2000 characters (thorough also 9000), 3 of them arbitrary", thorough=600, max_steps=2_000_000_000, depth=20000)],
  [])

P("C34", "The same dump always gives the same report",
  "The objects report of a dump is a function of the dump: it does not depend on the order in which internal maps happen to be walked, which Go randomises from run to run, even if classes have equal sizes, counts or names.",
  ["schedules", "inputs"],
  "all iteration orders of all maps; arbitrary small counts so that ties of every kind occur, both orders of the report",
  "A test sees one or a few of the orders.",
  [O + "objects.go", W + "objects.go"],
  [("GetObjects", O + "objects.go"), ("ObjectsPlain", W + "objects.go")],
  [H("hout", "H_Stable", "two reports about one dump", "2 primitive types and 3 classes, 2 of which share a name", quick=120),
   H("hout", "H_StableTotals", "totals of large numbers", "3 primitive types, 3 classes; numbers around 2^24, 2^31, 2^40 and 2^53", quick=60)],
  [])

P("C29", "HTML pages show the same facts, and dump text never becomes markup",
  "Each HTML page is a well-formed page with its title as heading, and shows exactly the facts of the corresponding report: the tables of the summary and of the objects row by row, the threads with their frames and (if asked for) locals line by line. Text from the dump, whatever characters it has, appears as that text in the page and never as tags or attributes. A page that could not be written completely is reported as an error.",
  ["inputs", "fault schedules"],
  "one arbitrary text at a time (any bytes but NUL, without outer blanks) in every place where a text of the dump is shown; with plain texts, arbitrary numbers and the structures of C21, C27 and C28; a destination failing at any write",
  "The tests compare three literal pages without any special character and never fail a write.",
  [W + "threads.go", W + "summary.go", W + "objects.go", W + "html.go", W + "templates/core.html", W + "templates/threads.html", W + "templates/summary.html", W + "templates/objects.html"],
  [("ThreadsHtml", W + "threads.go"), ("SummaryHtml", W + "summary.go"), ("ObjectsHtml", W + "objects.go")],
  [H("hout", "H_ObjectsHtml", "arbitrary objects", "up to 2 entries; the arbitrary text has 1 byte (thorough 2)"),
   H("hout", "H_SummaryHtml", "arbitrary summaries", "up to 2 properties; the arbitrary text has 1 byte (thorough 2)"),
   H("hout", "H_ThreadsHtml", "arbitrary thread dumps", "up to 2 threads; the arbitrary text has 1 byte (thorough 2)", quick=90, thorough=300),
   H("hout", "H_HtmlFails", "a destination that fails at some write", "up to 127 writes"),
   H("hout", "H_CrowdHtml", "very many threads", "1500 (thorough 5000) threads, one name of 3 arbitrary letters", max_steps=2_000_000_000, depth=20000),
   H("hout", "H_LongThreadsHtml", "many threads, deep stacks, long texts", "13 or 40 threads (thorough also 300), one with 130 or 300 frames (thorough also 2000), one of those with 140 locals; one text of 300 characters, arbitrary in 3", thorough=600, max_steps=2_000_000_000, depth=20000),
   H("hout", "H_VeryLongThreadsHtml", "few facts, one of them a very long text", "one text of 700 or 9000 characters (thorough also 70000), 3 of them arbitrary", thorough=600, max_steps=2_000_000_000, depth=20000),
   H("hout", "H_LongSummaryHtml", "many properties and long texts", "as in C28", thorough=600, max_steps=2_000_000_000, depth=20000),
   H("hout", "H_VeryLongSummaryHtml", "few facts, one of them a very long text", "one text of 700 or 9000 characters (thorough also 70000), 3 of them arbitrary", thorough=600, max_steps=2_000_000_000, depth=20000),
   H("hout", "H_LongObjectsHtml", "many entries", "13, 140 or 1100 entries (thorough also 5000), a name of 300 characters", thorough=600, max_steps=2_000_000_000, depth=20000),
   H("hout", "H_VeryLongObjectsHtml", "few facts, one of them a very long text", "one text of 700 or 9000 characters (thorough also 70000), 3 of them arbitrary", thorough=600, max_steps=2_000_000_000, depth=20000)],
  ["the contextual escaping analysis of html/template (taken natively from the template text) and its escapers (a bytewise contract; sampled paths replay the real package)", "longer arbitrary texts"])

M = "internal/cmd/"

P("C31", "A killed, failing or concurrent run never spoils a later one",
  "Whatever happens to a run while it indexes a dump - it is killed between any two file operations or in the middle of a write, any one operation fails, the dump turns out to be cut, or another run on the same dump takes place at the same time - no later run works with an incomplete index: it prints what an undisturbed run prints. A run that meets a failure says so or still prints the right thing, and leaves neither a partial index nor temporary files. The dump and other files are never touched.",
  ["crash points", "fault schedules", "interleavings", "inputs"],
  "every file operation of a run of each command as the point of death, of a torn write, of a failure, or of a complete run of a second process (thorough: which may itself die at any of its operations); every length of a cut dump",
  "The tests never run the commands; a crash or an error at a chosen operation is out of their reach.",
  [M + "subcommands.go", S + "storage.go", S + "volumes.go"],
  [("ParseHprof", M + "subcommands.go"), ("GetObjects", M + "subcommands.go"), ("GetSummary", M + "subcommands.go"), ("GetThreads", M + "subcommands.go")],
  [H("hfs", "H_Killed", "death before any operation or in the middle of any write", "one dump all three commands can report on", quick=60),
   H("hfs", "H_Failing", "failure of any one operation", "one dump all three commands can report on", quick=60),
   H("hfs", "H_Together", "a second run at any operation of the first", "the second runs from start to end (thorough: or dies) between two operations of the first", quick=30, thorough=500),
   H("hfs", "H_Malformed", "a dump cut at any byte", "a dump of one class, one instance and one array")],
  ["loss of power (the index is not synced before it is renamed)", "two runs that alternate more than once", "what the real file system does beyond the in-memory one that stands for package os (links, permissions, quotas)"])

P("C32", "The index is built once beside the dump and reused as it is",
  "The first command that is run on a dump builds its index in the directory <dump>.db beside it, whatever the name of the dump is and however its path is written, and leaves nothing else behind. Every later command, the same or another, under any spelling of the path, reuses that index without changing it and prints exactly what it prints with an index of its own.",
  ["histories", "inputs"],
  "all pairs of commands; all names of 2 bytes; 8 spellings of the path for both runs",
  "The tests never run the commands.",
  [M + "subcommands.go"],
  [("ParseHprof", M + "subcommands.go")],
  [H("hfs", "H_Twice", "two commands one after the other", "one dump all three commands can report on"),
   H("hfs", "H_Paths", "spellings of the path", "relative, absolute, with dots, doubled slashes, links to directories and .. behind them", quick=60),
   H("hfs", "H_Names", "names of the dump", "names of 2 arbitrary bytes"),
   H("hfs", "H_Large", "every command on a large dump under a long path, twice", "a dump of 120 KB with hundreds of records of each kind; an arbitrary thread status", max_steps=2_000_000_000, depth=20000)],
  ["a dump that is replaced by another one after it was indexed", "symbolic links"])

P("C36", "A damaged index is reported, never used for a wrong report",
  "A run that finds an index with files missing, cut at any byte, replaced by a directory, or an empty or unusable index directory, ends with an error, or, if its report does not need what is missing, prints exactly the report of the dump. It never crashes and never prints a report of a part of the dump.",
  ["faults", "inputs"],
  "every command, every file of the index, every length it is cut to, and the other kinds of damage named above",
  "The tests never run the commands, and open index files only in perfect condition or of one odd size.",
  [M + "subcommands.go", S + "index.go", S + "big.go", S + "small.go", S + "meta.go"],
  [("createBigReader", M + "subcommands.go"), ("NewIndexRecordsReadStorage", S + "index.go"), ("RestoreFrom", S + "small.go")],
  [H("hfs", "H_Damaged", "one kind of damage to one file of the index, or to all", "one dump all three commands can report on; quick: the first and last 18 lengths of a file", quick=100, thorough=300)],
  ["files of the index with altered contents of the right length", "encoding/gob itself (contract stub; sampled paths replay the real one)"])

P("C37", "A report that is not written whole is an error",
  "If the standard output does not take the whole report, whatever the command and the format and wherever writing fails (a full disk, a closed pipe), the run ends with a status other than 0. A run that ends with status 0 has written the complete report.",
  ["faults", "configurations"],
  "every command and format; every number of bytes the output still takes; failing once or for good, after nothing or half of a write",
  "The tests write to buffers that never fail, and never run the commands.",
  [M + "subcommands.go", U + "objects.go", U + "summary.go", U + "threads.go", U + "html.go", "cmd/neojhat/main.go"],
  [("GetThreads, GetSummary, GetObjects", M + "subcommands.go"), ("ObjectsPlain", U + "objects.go"), ("SummaryPlain", U + "summary.go"), ("ThreadsPlain", U + "threads.go")],
  [H("hfs", "H_Unwritten", "a standard output with room for some of the report", "one dump all three commands can report on; output below 64 KiB", quick=120)],
  ["output that is lost after the write was accepted"])

P("C33", "The progress display never affects the result and ends on a clean line",
  "With the progress display on, whatever the interleaving of its goroutine with the indexing, the run ends, builds the same index and gives the same report or error as with -non-interactive, and writes nothing of it to standard output. What is shown are percentages from 0 to 100 that never decrease, with a bar of constant length that agrees with them, also if the size of the dump is unknown or it grows; the last line is cleared at the end.",
  ["schedules", "inputs"],
  "all schedules with up to 3 switches at the file operations of the run, in addition to those where a goroutine blocks or sleeps; 6 claims about the size of the file; complete and cut dumps",
  "The tests never show progress.",
  [M + "interactive_print.go", M + "subcommands.go"],
  [("interactive", M + "interactive_print.go"), ("progressBar", M + "interactive_print.go")],
  [H("hfs", "H_ProgressEnd", "schedules of the display and of the terminal", "a small dump, complete or cut; 3 voluntary switches, then every goroutine runs on"),
   H("hfs", "H_Progress", "schedules of the display while it runs", "a dump of one class, one instance and one array, read in 4 pieces", quick=60),
   H("hdump", "H_Large", "the position shown, in dumps of any size", "2 objects of arbitrary length (thorough 3)")],
  ["the memory model: switches happen at file and channel operations only, data races are not looked for"])

P("C35", "Options do exactly what they describe; misuse and errors are explained",
  "Each option of each command has the effect of its description and no other, in any order and spelling: the report printed is that of the settings asked for, on the dump asked for. -output and -sort-by take exactly the values they name (empty for the default) and reject everything else. Without a command or a dump the program explains all commands and options and ends with status 0; unknown options and values give a message that names the option, and errors give 'Error occurred: ' with the reason, both with a status other than 0. Misuse never writes a file.",
  ["inputs", "configurations"],
  "all combinations of the options' values, 2 orders, 2 spellings; all option values up to 7 bytes and unknown commands up to 7 bytes; missing, cut and non-regular dumps",
  "The tests never run the program.",
  ["cmd/neojhat/main.go", M + "flags.go", M + "subcommands.go", O + "models.go"],
  [("main", "cmd/neojhat/main.go"), ("OutputType.Set", M + "flags.go"), ("SortBy.Set", O + "models.go")],
  [H("hfs", "H_Options", "all options", "one dump all three commands can report on", quick=60),
   H("hfs", "H_Names", "the dump asked for", "names of 2 arbitrary bytes, or with blanks, quotes, percent signs"),
   H("hfs", "H_Values", "values of -output and -sort-by", "0 to 7 arbitrary bytes"),
   H("hfs", "H_Help", "no command, no dump, or a request for help", "unknown commands of 0 to 7 bytes"),
   H("hfs", "H_Rejected", "unknown options and values", "values of 1 to 6 printable bytes"),
   H("hfs", "H_Error", "dumps with errors", "missing, a directory, or cut at any byte"),
   H("hfs", "H_ReportError", "an index from which the report cannot be made", "each file of the index missing")],
  ["package flag beyond the copy of its source that is executed"])
