import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,obs=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Loading damaged descriptions always ends in a result or an error",
"Loading a stored device description that storage or transport has damaged (truncated, torn, bit-flipped, with lost, duplicated, reordered or stale pieces), as XML or through its JSON form, at any validation level and with or without expansion, ends in a description or an error. It never panics, aborts, overflows the stack or an arithmetic operation, or does work out of proportion to the size of the text plus the number of elements its arrays declare. A description that was accepted can always be validated and compared without a panic.",
["fault_sequences","inputs","configurations"],
"for every document, every sequence of storage and read faults applied to it, and every load configuration",
"The 19 tests parse a handful of well-formed snippets; no test feeds a damaged file, and the panicking paths sit behind rare combinations of missing children and extreme numbers.",
["svd-parser/src","svd-rs/src"],
[("Result-returning element parsers","svd-parser/src/*.rs impl Parse"),("array/index count check before use","svd-parser/src/array.rs parse_array"),("bit range checks","svd-parser/src/bitrange.rs"),("serde deserialisers","svd-rs/src/bitrange.rs, dimelement.rs, array.rs ser_de")],
obs=["return value or abnormal end of parse_with_config / serde_json::from_reader / expand"])

p("C02","An interrupted save is never read back as a third description",
"When a description is saved over an older one (the file truncated, then written from the start) and the save is interrupted by a crash, a full disk or a write error, what a later load accepts is the old description or the new one in full; a prefix, a prefix followed by or containing zeroed blocks, a new text followed by the rest of an older one, or any other incomplete remnant of such a save is reported as an error. This holds for the XML form and for the JSON form, at every point at which the save can be interrupted.",
["crash_points","fault_sequences","histories"],
"for every pair of old and new description, every crash point of the save, and every subset of its writes that reached the disk in order",
"No test interrupts a save; completeness depends on every loader path rejecting every proper prefix and on where the encoder puts the last required element.",
["svd-encoder/src/lib.rs","svd-encoder/src/device.rs","svd-parser/src/lib.rs","svd-parser/src/device.rs","svd-rs/src/device.rs"],
[("whole-document emission, root closed last","svd-encoder/src/lib.rs encode_with_config"),("required root and required children","svd-parser/src/lib.rs, device.rs"),("required fields in the serde form","svd-rs/src/device.rs")],
obs=["bytes on the simulated disk after restart; result of the next load"])

p("C03","Saved XML reloads as the same description",
"A valid description that was saved as XML, with any choice of number formats, bit-range notation and ordering options, and whose save was acknowledged reads back equal to what was saved, through any number of save, crash, restart, load and re-save cycles, and an independent reader of the saved text finds the same content. Ordering options only permute sibling peripherals, registers and clusters, and fields, and put them in the order they name (by ascending or descending address, by name, derived ones last, registers or clusters first). Numbers are written in the notation chosen for them. Empty optional texts and empty child lists count as absent.",
["histories","inputs","configurations","fault_sequences"],
"for every valid description, every encoder configuration without identifier case changes, and every history of saves, crashes after acknowledgement, and reloads",
"The tests compare a few small hand-written elements with one default configuration each; they never reload what was saved, never combine options and never use a whole device.",
["svd-encoder/src","svd-parser/src"],
[("Encode implementations per element","svd-encoder/src/*.rs"),("sorting of siblings","svd-encoder/src/device.rs, peripheral.rs, register.rs"),("Parse implementations per element","svd-parser/src/*.rs")],
obs=["text produced by encode_with_config", "Device returned by parse_with_config"])

p("C04","The JSON and YAML forms keep the whole description",
"A valid description exported through its serialised data form (JSON or YAML) and imported again is equal to the original in everything but the schema attributes of the XML root, whatever the reader or writer at the other end does with short transfers and interruptions. When a transfer fails for good (I/O error, full disk) the caller gets an error, never a partial description.",
["histories","inputs","fault_sequences"],
"for every valid description and every sequence of short, interrupted and failing reads and writes during export and import",
"One conversion test handles a single sample document; arrays, optional children and the three bit-range notations go through flattened and untagged decoding, which silently loses data when it goes wrong.",
["svd-rs/src"],
[("derived and hand-written serde implementations","svd-rs/src/*.rs"),("array flattening","svd-rs/src/array.rs ser_de"),("bit range notations","svd-rs/src/bitrange.rs ser_de"),("index lists","svd-rs/src/dimelement.rs ser_de")],
obs=["serde_json / serde_yaml bytes on the simulated disk", "deserialised Device"])

p("C05","Calls are isolated: same input, same result, whatever else ran",
"Every operation on descriptions (load, validate, edit, expand, save, export) gives a result that depends only on its arguments. The result is the same whichever operations run concurrently on other threads in whatever interleaving, whatever ran before in the process including calls that failed or panicked, and whatever seeds the process's hash tables and clock have; concurrent calls never deadlock.",
["schedules","histories","fault_sequences"],
"for every set of concurrent calls, every thread schedule, every earlier history of calls including failing ones, and every hash seed and clock reading",
"Tests run each call once in one process; lazily initialised shared state, hash iteration order and interleavings are left to chance.",
["svd-rs/src/lib.rs","svd-parser/src/expand.rs","svd-parser/src/lib.rs","svd-encoder/src/lib.rs"],
[("lazy static name patterns","svd-rs/src/lib.rs check_name, check_dimable_name"),("lookups by path, never iteration, of the hash index","svd-parser/src/expand.rs Index")],
state=[("PATTERN","compiled regular expressions shared by all threads","svd-rs/src/lib.rs"),("hash keys","per-thread random keys of the index tables","std RandomState via svd-parser/src/expand.rs")],
obs=["digest of every call's result"],
hook=None)

p("C06","Edits change exactly what they name",
"After any sequence of edits, builds and rebuilds of an element, each of its properties holds the value most recently given for it: properties an edit does not mention keep their value, an empty text removes an optional text, bit position and width may be given in any order and combination, and making an element derived stores the reference and clears the element's own content that would override what it inherits (the elements it contains, its register properties and its write behaviour, also where the same edit gives them). An edit that is rejected leaves every property it does not mention untouched.",
["histories","inputs","configurations"],
"for every history of builder calls, in-place edits and rebuilds, at every validation level, including rejected edits in between",
"Tests build single elements once; no test applies an edit, let alone a history with rejected ones.",
["svd-rs/src"],
[("builders and their From conversions","svd-rs/src/*.rs *Builder"),("in-place edits","svd-rs/src/*.rs modify_from")],
obs=["public properties of the edited element after every step"])

p("C07","Resolving references always terminates",
"Resolving the derivation references of any accepted description ends with a resolved description or an error after work bounded by the size of the description and the number of elements its arrays and references stand for. Circular references of any length, at any level (peripherals, clusters, registers, fields, enumerated values), including cycles entered from outside and elements that contain or inherit themselves, end in an error.",
["histories","inputs"],
"for every reference graph, in particular those produced by independent edits each of which is valid alone",
"Existing tests resolve a few acyclic references; cycles arise when two edits made independently meet, and only direct self-references are checked in isolation.",
["svd-parser/src/expand.rs"],
[("self-reference checks and recursive resolution","svd-parser/src/expand.rs derive_*")],
obs=["return or abnormal end of expand; work counted at the allocator"])

p("C08","The expanded view is the one the references and arrays define",
"Expanding a description yields exactly the elements its arrays, clusters and references define: every array element once with its substituted name, display name and description and its address or bit position stepped from the first; cluster contents flattened under the joined name at the summed offset; every derived element with its own inheritable properties first, then those of the element it names, resolved where that one is defined, along the whole chain. References that name nothing, or positions that do not fit their width, are errors.",
["histories","inputs","schedules"],
"for every accepted description, including any reached by edits, and every hash seed",
"The tests expand one or two small documents; combinations of arrays in clusters in derived blocks, and references that cross blocks, are never compared with an independent definition.",
["svd-parser/src/expand.rs","svd-rs/src/derive_from.rs","svd-rs/src/array.rs","svd-rs/src/register.rs","svd-rs/src/field.rs","svd-rs/src/cluster.rs","svd-rs/src/peripheral.rs","svd-rs/src/dimelement.rs"],
[("index of all elements by path","svd-parser/src/expand.rs Index"),("field-wise inheritance","svd-rs/src/derive_from.rs"),("array expansion","svd-rs/src/*.rs expand/address_offsets/bit_offsets")],
obs=["Device returned by expand"])

p("C09","A document is read as exactly what its text says",
"Whatever damage or editing a stored XML description went through, when it is accepted every property of the loaded description is the value written at that place in the text, in any of the accepted number notations, with nothing dropped, invented, moved to another element or shifted. A value or element that is present but cannot be understood, or a required one that is missing, makes the load fail; elements the model does not know are skipped, of repeated single-valued elements the first counts, and an element is an array exactly when it has a dimension increment. Excluding enumerations from the load removes only enumerated values and field write constraints. An element read by itself is what it is in the whole, and one of another kind is refused.",
["fault_sequences","inputs","configurations"],
"for every document text, every damage applied to it that leaves well-formed markup, and every load configuration",
"Tests cover one sample per element type with ideal text; damage that remains well-formed (digits, names, lost or repeated lines) is never tried.",
["svd-parser/src"],
[("per-element parsers","svd-parser/src/*.rs"),("text, integer and boolean readers","svd-parser/src/types.rs, elementext.rs")],
obs=["Device returned by parse_with_config against an independent reader of the same text"])

p("C10","A validation level means the same however a description arrives",
"A description is accepted at a validation level exactly when all its elements satisfy that level's rules, and the answer is the same whether it is loaded at that level, built at that level, or loaded without validation and validated afterwards as a whole. A stricter level only rejects more: it never changes the content of what is accepted, and turning validation off rejects nothing that is readable. Loading without options is loading at the weak level.",
["inputs","histories","configurations","fault_sequences"],
"for every description, valid or made invalid by edits or storage damage, and every pair of levels",
"Tests exercise single rules on single elements; agreement of the three ways to validate over whole devices, and monotonicity between levels, are never checked.",
["svd-rs/src","svd-parser/src"],
[("validate and validate_all per element","svd-rs/src/*.rs"),("build(level)","svd-rs/src/*.rs"),("level passed by the loader","svd-parser/src/*.rs")],
obs=["accept/reject at each level", "content accepted at each level"])

p("C11","A load error points at the fault",
"When loading fails because of one fault in an otherwise valid XML description, the error message gives the line and column of the element at fault (or of the element that lacks a required child), that element's own name if it has one, and the names of the enclosing enumerated value, field, register, peripheral, interrupt and device, from the inside out. A document without a device element has nothing to point at.",
["fault_sequences","inputs","configurations"],
"for every valid document, in any layout, and every single fault placed in it",
"No test looks at an error's position or names; they only assert that an error occurs.",
["svd-parser/src/lib.rs","svd-parser/src"],
[("errors carry the node they occurred at","svd-parser/src/lib.rs SVDErrorAt"),("context built from position and ancestors","svd-parser/src/lib.rs parse_with_config")],
obs=["error chain text of parse_with_config"])

p("C12","Register defaults reach exactly the registers that lack them",
"Applying inherited register defaults gives every register, at any depth, for each of size, access, protection, reset value and reset mask, its own value if it has one, else that of the nearest enclosing cluster, peripheral or device that has one. Nothing else in the description changes, derived elements and what they contain are left alone, and applying it again, or after saving and reloading, changes nothing more.",
["histories","inputs","configurations"],
"for every description and every history of edits, saves and reloads around the step",
"No test covers nested clusters or derived elements, nor repeats the step.",
["svd-parser/src/expand.rs","svd-parser/src/lib.rs","svd-rs/src/derive_from.rs"],
[("default propagation","svd-parser/src/expand.rs expand_properties"),("option in the load configuration","svd-parser/src/lib.rs")],
obs=["Device after expand_properties"])

p("C13","Identifier case options rewrite names and the references to them alike, and nothing else",
"Saving with identifier case options (camel, pascal, snake or constant case, or none, chosen for each kind of element) rewrites exactly the identifiers that the option of their kind names, and in references (derivedFrom of registers, clusters, fields and enumerated values) each part by the option of the kind of element that the part names, so that a reference to an element still names it. Every word of the identifier is kept (words end at an underscore, a hyphen or a space, where a small letter is followed by a capital, and before the last capital of a run that a small letter follows), placeholders of arrays stay usable, and all other content is unchanged. This holds through any number of save, crash, restart, load and re-save cycles with different options.",
["histories","inputs","configurations","fault_sequences"],"for every description, every choice of case options, and every history of saves, crashes and reloads with them",
"The tests save a handful of single elements with one option; a reference and what it refers to are rewritten by different code, for eight kinds of elements and three formats, and are only joined again when the file is loaded and resolved.",
["svd-encoder/src"],[("case conversion","svd-encoder/src/config.rs change_case, change_path_case"),("use at each element","svd-encoder/src/*.rs encode_with_config")],
obs=["saved text and the description read back from it"])

p("C14","What is computed from an element follows its content at every point of its history",
"At every point of a history of edits, accepted or rejected, saves, exports, imports and expansions, what the library computes from an element is what its present content says: the mask of a field, a field array or a register has exactly those of the lowest 64 bits set that the fields occupy, without failing for fields beyond them; lowest and highest bit, offset, width and the text form of a bit range agree; the members, indexes, ranges and addresses of an array are those its dimensions describe; read and write permission, default marks and usage are those stated; and an element derived from another has what it states itself and takes the rest from the other one.",
["histories","inputs"],"for every element, every bit position and width, and every history of edits, saves, exports and expansions","No test computes a mask, a position, an index range or a derived element from anything that was edited or loaded.",
["svd-rs/src/field.rs","svd-rs/src/register.rs","svd-rs/src/bitrange.rs","svd-rs/src/dimelement.rs","svd-rs/src/array.rs","svd-rs/src/access.rs","svd-rs/src/derive_from.rs"],
[("mask arithmetic","svd-rs/src/field.rs bitmask, svd-rs/src/register.rs bitmask"),("members of arrays","svd-rs/src/{field,register,cluster,peripheral}.rs expand, names, address_offsets"),("derivation","svd-rs/src/derive_from.rs")],
obs=["values of every accessor after every step"])
p("C15","Paths find the elements they name, and print and parse back to themselves",
"At every point of a history of edits, renames, saves, exports and expansions, the index of a description has exactly its peripherals, clusters, registers, fields and lists of enumerated values, each under its path and, for arrays, also under the path of each member; a path that several elements share leads to one of them; each path prints as its names joined by full stops, parses back to the same path, and compares equal to its own text and to no other.",
["histories","inputs"],"for every description and every history of renames, edits, saves and expansions","No test builds an index or prints and parses a path.",
["svd-parser/src/expand.rs"],[("path types","svd-parser/src/expand.rs BlockPath, RegisterPath, FieldPath, EnumPath"),("index","svd-parser/src/expand.rs Index::create, add_peripheral, add_registers, add_fields")],
obs=["index content and path texts after every step"])
p("C16","Encoder options set by name act like the ones set directly",
"A program that reads its encoder options as names and values from a stored settings file, through crashes and restarts, saves the same text as one that sets the same options directly: each name acts on its own option and no other, the value given last counts, and names that are no option change nothing.",
["configurations","histories","fault_sequences"],"for every option, value, and history of settings read, restarts and saves",
"No test sets an option by name; there are 23 names, with three kinds of values, each with its own line of code.",
["svd-encoder/src/config.rs"],[("option table","svd-encoder/src/config.rs Config::update"),("values by name","svd-encoder/src/config.rs FromStr")],
obs=["saved text under both configurations"])
p("C17","Lookups and traversals see every element once, at every point of its history",
"At every point of a history of edits, renames, insertions and removals, accepted or rejected, each way to go through a block visits exactly the elements that are there: traversing registers, clusters or fields visits each one directly inside once in document order, traversing all registers visits each register at any depth once in document order, and the forms that allow changes visit the same ones. A lookup by name finds the first peripheral, register, cluster, field, interrupt or enumerated value of that name, one by usage the first of a field's one or two lists of enumerated values that has that usage of its own (read and write where it gives none), and nothing where there is none; what is changed through a lookup or traversal changes that element and no other. Each element found or visited reports its own name, description, reference and offset.",
["histories","inputs"],"for every block and every history of edits, renames and rejected edits","No test makes a lookup among elements that share a name, or traverses a block that was edited.",
["svd-rs/src/registercluster.rs","svd-rs/src/peripheral.rs","svd-rs/src/cluster.rs","svd-rs/src/register.rs","svd-rs/src/field.rs","svd-rs/src/device.rs","svd-rs/src/enumeratedvalues.rs"],
[("iterators","svd-rs/src/registercluster.rs, svd-rs/src/cluster.rs"),("lookups","svd-rs/src/*.rs get_*, get_mut_*")],
obs=["elements returned by every lookup and traversal after every step"])
p("C18","Reading the data form returns what the data says",
"Whatever stored JSON or YAML is accepted as a description, written by another program in any layout, with keys in any order, optional keys absent or null, unknown keys, numbers of any size, arrays of indexes in either notation and bit ranges in any of the three forms, and damaged or edited since, and whether read as text, as bytes, through a reader that delivers it in pieces, or as a value: the description has exactly the properties, elements, values and order of the data, and the four ways agree. Data that lacks something required, gives a value outside its range or of another kind, or an array without placeholder or with the wrong number of indexes, is refused. A fault of the transfer is reported, not read as a shorter description.",
["inputs","fault_sequences"],"for every data text another program may write and every sequence of damage and transfer faults applied to it",
"The tests deserialize a few single elements that the same crate serialized; no test reads foreign or damaged data.",
["svd-rs/src"],[("derived and hand-written deserialisers","svd-rs/src/*.rs, ser_de modules in array.rs, bitrange.rs, dimelement.rs, registercluster.rs")],
obs=["result of deserialisation, read back property by property"])
p("C19","A refusal says why",
"When building, editing or validating an element is refused, the error is the variant that stands for a reason the description gives at that level, and carries its particulars: the value that is missing, the text that is no identifier and the property it stands in, the reset value, mask and size that do not fit together, the value or constraint and the bound it exceeds, or what is empty, contradictory or absent; its message shows these particulars. When a load is refused for something missing or against the rules of the level, the message shows the particulars of one of the reasons the text gives.",
["inputs","histories","fault_sequences"],"for every element, level, fault and history of edits",
"The tests check a few error values of validation; none checks what a message says.",
["svd-rs/src","svd-parser/src"],[("builders and validation","svd-rs/src/*.rs build, validate"),("error types","svd-rs/src/lib.rs SvdError, BuildError, NameError; svd-parser/src/lib.rs SVDError")],
obs=["variant, particulars and message of every refusal"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
