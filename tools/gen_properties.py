#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. One entry per property; edit here, not in the jsonl."""
import json, os
P = []
DB, SNAP, IDX, SCAN, TYPED, CMP = ("internal/database/database.go", "internal/database/snapshot.go", "internal/index/index.go",
    "internal/index/scan.go", "internal/index/typed.go", "internal/index/compare.go")
SYS, TXN, TYPES = "internal/sys/sys.go", "internal/types/txn.go", "internal/types/types.go"
ASM, MOD, SCH, SHR, FLD = ("internal/structs/assemblers/assemblers.go", "internal/structs/models/models.go",
    "internal/structs/schemas/schemas.go", "internal/structs/shredder/shredder.go", "internal/structs/shredder/field.go")
PUB, PUBI = "pkg/database/database.go", "pkg/database/impl.go"

def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

DATUMS = ("datum set", "the set of (entity, attribute, value, transaction) facts a snapshot answers from", DB + ": eav, aev, ave")

p("C01", "Writes are all-or-nothing",
  "A write request takes effect completely or not at all. A rejected request - whichever claim or retraction of it is bad, and however late the fault shows - leaves every query answer and every ident resolution of the database exactly as before, reports an error with no transaction id and no temp ids together with a snapshot of the unchanged state, and does not hinder later writes. An accepted request's response snapshot, and any read after it, shows all of its effects.",
  ["inputs", "histories"], "every request (valid or with a fault at any position, of any kind) in every reachable state",
  "Tests reject seven one-claim requests and re-read one datum; they never reject a request whose earlier claims were valid schema, ident, upsert or replacement claims, nor compare the whole state.",
  [DB, TXN], [("indexes are cloned, changed, then swapped in only when no claim was rejected", DB + ": Write"), ("allocation is rolled back on error", DB + ": Write (lastID)")],
  ["Write response", "Read()", "Select of everything before/after"], [DATUMS])

p("C02", "Snapshots never change",
  "A snapshot, however obtained (read, accepted write or rejected write), answers every query and every ident resolution identically forever, no matter what is written to the database afterwards - data, replacements, retractions or schema - and no matter how many other snapshots are taken.",
  ["histories", "inputs"], "every snapshot taken at any point of every history of later writes",
  "One test compares one cardinality-one value before and after one write; sharing bugs in copied-on-write trees and shared maps need particular sequences of writes and clones.",
  [DB, SNAP, IDX, TYPED], [("trees are cloned copy-on-write for every snapshot and write", DB + ": read, Write"), ("ident and attribute maps are cloned for a snapshot", DB + ": read")],
  ["Snapshot.Select/Count/Has/ResolveIdent on old snapshots"], [DATUMS])

p("C03", "An accepted write changes exactly what it asked for",
  "After an accepted write the set of datums is the previous set, plus the asserted datums, minus the retracted ones and minus the values that cardinality-one assertions replace; nothing else appears, disappears or changes. A datum that was already present keeps the transaction id that introduced it, and every new datum carries the id of the write that introduced it.",
  ["inputs", "histories"], "every accepted request of any mix of assertions and retractions in every reachable state",
  "Tests look at the one or two datums they wrote; none compares the complete state, re-asserts a datum of every value type, or mixes assertions and retractions of the same entity.",
  [DB, IDX, TYPED], [("per-claim application to the cloned indexes", DB + ": Write"), ("insertion retains an extant datum", TYPED + ": Insert")],
  ["Select of everything before/after a write"], [DATUMS])

p("C04", "Attribute cardinality is enforced",
  "In every reachable state an entity has at most one value for an attribute of cardinality one (the default), and a set of distinct values for an attribute of cardinality many. Asserting a new value for a cardinality-one attribute replaces the old one whatever its type or sign, asserting further values of a cardinality-many attribute keeps the old ones, and one request that asserts two different values of a cardinality-one attribute for the same entity - however it is named - is rejected.",
  ["inputs", "histories"], "all attribute types, values, naming forms and write histories",
  "Two tests replace one positive int and add one string; the value types, negative values, tempids that resolve to the same entity, and in-request duplicates are never tried.",
  [DB, IDX], [("extant value of the entity and attribute is found and deleted before insertion", DB + ": Write"), ("First on the EA prefix", IDX + ": First")],
  ["Select(E,A)", "Count(E,A)", "Write response"], [DATUMS])

p("C05", "A unique value has at most one holder",
  "In every reachable state no two entities hold the same value of an attribute declared unique (identity or value), whether they were named by tempid, id, ident or lookup reference, in one request or in several.",
  ["inputs", "histories"], "all histories of accepted requests, including conflicting claims inside a single request",
  "Tests assert a duplicate once, by tempid, across two requests; explicit entity ids, and duplicates within one request, are never tried.",
  [DB, IDX], [("check of asserted values of unique attributes against the value index and the rest of the request", DB + ": Write")],
  ["Select(A,V)", "Write response"], [DATUMS])

p("C06", "Temp ids resolve consistently and identity claims upsert",
  "All uses of a temp id in a request, as entity or as value, denote one entity: the entity that already holds an identity-unique value claimed for that temp id, or for which the request itself explicitly claims that value, if there is one; otherwise one brand new entity, which temp ids claiming the same identity value in the request share. The response maps every temp id to that entity's id, and every datum written for it, or referring to it, uses that id; claims that would make one temp id denote two existing entities are rejected.",
  ["inputs", "histories"], "every request with any number of temp ids, identity claims (several per temp id, of any type, in any order) and references, in every state",
  "Tests upsert one entity by one identity attribute, without references to the temp id and without re-declaring attributes.",
  [DB, TXN], [("allocation of ids for temp ids", DB + ": evaluateClaim"), ("rewriting of temp ids to the holders of their identity values", DB + ": Write")],
  ["Response.TempIDs", "datums of the named entities"], [DATUMS])

p("C07", "Uniqueness rejects exactly the conflicting claims",
  "A request is rejected for uniqueness when it claims a value of a unique attribute for an explicitly named entity while another entity holds or is also claiming it, when it claims for a temp id a value-unique value some entity already holds, or when two different entities of the request claim the same value-unique value. It is not rejected for uniqueness otherwise: re-asserting an explicitly named entity's own unique value, several identity claims that agree on one entity, and retracting a unique value are all accepted.",
  ["inputs", "histories"], "all combinations of naming form, unique kind, holder and in-request duplicates",
  "Tests cover a single collision by temp id; acceptance of harmless claims and conflicts by explicit id are untested.",
  [DB], [("unique checks", DB + ": Write")], ["Response.Error"], [DATUMS])

p("C08", "Ids are issued once and transaction ids increase",
  "Every accepted write gets a transaction id greater than any id the database has issued or acknowledged before, and every new entity an id never issued or acknowledged before and different from all other ids of the request. No accepted write, rejected write or retraction makes an id that was ever reported to a caller be issued again.",
  ["histories", "inputs"], "every history of accepted and rejected writes",
  "Tests check positive ids and inequality of two consecutive transactions; reuse needs particular histories (rejections, upserts, retractions in between).",
  [DB], [("monotonic allocation counter, rolled back only for ids never reported", DB + ": allocateID, Write")], ["Response.ID", "Response.TempIDs"],
  [("issued ids", "ids reported by any response so far", DB + ": nextID")])

p("C09", "Only well-typed values of declared attributes are stored",
  "In every reachable state the attribute of every datum is a declared attribute and the datum's value has that attribute's declared type. A claim whose attribute is not a declared attribute, or whose value is missing or of another type - including idents, lookup references and temp ids used where no reference is expected - is rejected.",
  ["inputs", "histories"], "all attribute types crossed with all value forms, in every state",
  "One test asserts a string for an int attribute; the type/value matrix and undeclared or half-declared attributes are not covered through the transactor.",
  [DB, SYS], [("value validation against the declared type", DB + ": evaluateClaim"), ("type table", SYS + ": ValidValue")], ["Write response", "Select of everything"], [DATUMS])

p("C10", "Attribute definitions are complete and immutable",
  "Every attribute has exactly one ident and one valid type from the request that declares it onwards, plus at most one valid cardinality and uniqueness. No accepted request changes, extends or retracts any of these for an existing attribute, however the attribute is named, and a request declaring an invalid or incomplete attribute is rejected; declaring an attribute again identically is accepted and leaves the attribute, its id and all its data as they were.",
  ["inputs", "histories"], "all declarations, re-declarations, changes and retractions, by id, ident, lookup reference or temp id",
  "Tests re-declare one attribute identically and ignore the resulting state, and change or retract only a type, by id.",
  [DB, SYS], [("system attribute checks", DB + ": Write (attrChanges)"), ("valid types, cardinalities, uniques", SYS)], ["Write response", "ResolveIdent", "Select of the attribute entity"], [DATUMS])

p("C11", "The system's own entities and idents are reserved",
  "No accepted request asserts or retracts any datum about a system entity, nor gives any entity an ident in the reserved sys/ space, however entity and ident are named. The bootstrap datums are present and unchanged in every reachable state.",
  ["inputs", "histories"], "all claims and retractions that reach system entities by id, ident, lookup reference or temp id",
  "One test asserts one new sys/ ident; claims about existing system entities are never tried.",
  [DB, SYS], [("ident validation and system entity rejection", DB + ": Write"), ("bootstrap datums", SYS + ": Datums")], ["Write response", "Select of system entities"], [DATUMS])

p("C12", "Ident resolution agrees with the datums",
  "In every snapshot an ident resolves to an entity exactly when that snapshot contains the datum giving that entity that ident, and an attribute id resolves to its ident exactly when it is an attribute. This survives renaming, retracting, re-creating and re-declaring idents.",
  ["histories", "inputs"], "all histories of ident assertions, changes, retractions and attribute declarations",
  "Tests resolve idents of freshly declared attributes only; renames, retractions and re-declarations of idents are untested.",
  [DB, SNAP], [("ident cache maintained beside the indexes", DB + ": Write")], ["ResolveIdent", "ResolveAttrIdent", "Select(*, sys/db/ident)"],
  [("idents", "ident to id cache", DB + ": idents"), DATUMS])

p("C13", "Queries return exactly the matching datums",
  "For every combination of given and omitted entity, attribute and value, selecting returns exactly the datums of the snapshot that match - each once, with its value and transaction id - counting returns their number, and the existence check is true iff there is one. The answer does not depend on which combination of fields is given or on the attribute being unique.",
  ["inputs", "histories"], "all query shapes, attributes, values and states",
  "Tests run each shape once over two datums of two types; other value types, mixed attributes, cardinality-many and value filters over many datums are not covered.",
  [SNAP, IDX, SCAN, TYPED], [("access path choice", SNAP + ": access"), ("three indexes kept in step", DB + ": Write"), ("typed sub-trees per value kind", IDX)],
  ["Select", "Count", "Has"], [DATUMS])

p("C14", "Query results come in entity, attribute, value order",
  "Every selection yields its datums sorted by entity, then attribute, then value in the natural order of the value type, whatever types its attributes have. Breaking off an iteration or iterating the same selection again has no effect on what is yielded.",
  ["inputs", "histories"], "all query shapes and states, all value types, any early stop",
  "Two tests order six datums of one entity; multi-valued attributes of each type, several entities and partial iteration are not covered.",
  [IDX, SCAN, TYPED, CMP], [("k-way merge of typed trees", SCAN + ": mergeEAV"), ("typed comparison functions", CMP)], ["Select"], [DATUMS])

p("C15", "References in queries mean the entity they resolve to",
  "In a query, an ident or a lookup reference in any position means the id it resolves to in that snapshot, so the query answers exactly as with that id. A reference that does not resolve - an unknown ident, a lookup value nobody holds or of the wrong type, a lookup on a non-unique attribute, a temp id - matches nothing; it never widens the query, and a value of the wrong type for the attribute matches nothing.",
  ["inputs", "histories"], "all reference forms in entity, attribute and value position, resolvable or not, in every snapshot",
  "Tests query by one lookup reference that resolves; unresolvable references are checked only where no datum could match anyway.",
  [SNAP], [("claim resolution", SNAP + ": resolveClaim, resolveLookupRef")], ["Select", "Count", "Has"], [DATUMS])

p("C16", "References in claims resolve in the state before the write",
  "In a write, ids, idents and lookup references in entity, attribute or value position denote the entity they resolve to in the state before the write, and the transaction reference denotes the new transaction. A request with a reference that does not resolve (unknown ident, unheld or mistyped lookup value, lookup on a non-unique attribute, id zero or never issued as entity or attribute) is rejected.",
  ["inputs", "histories"], "all reference forms in all positions of claims, in every state",
  "Tests use one lookup reference as entity and three unknown idents; lookup references and idents as attributes and values, and the transaction reference, are untested.",
  [DB], [("claim evaluation", DB + ": evaluateClaim, resolveLookupRef")], ["Write response", "datums written"], [DATUMS])

p("C17", "Retracting an entity removes all of it and nothing else",
  "A retraction whose constraints all resolve to one entity removes every datum of that entity that existed before the write, including idents and unique values, and no datum of any other entity: references to it and entities it references stay. A retraction with no constraints, with a constraint that does not resolve, or whose constraints resolve to different entities is rejected, as is one of a system entity or attribute.",
  ["inputs", "histories"], "all retraction constraint sets in all states, alone or mixed with claims and other retractions",
  "Tests retract one or two entities of two datums; entities with all value types, many values, idents and multiple constraints are not covered.",
  [DB, TXN], [("expansion of retractions into claims", DB + ": Write")], ["Select before/after", "Write response"], [DATUMS])

p("C18", "Values come back as they were written",
  "Every value of every type - including negative, zero and extreme numbers, infinities and NaN, empty and non-ASCII strings, references, and instants in any zone to the millisecond - is found, selected, counted, replaced and retracted exactly like any other, and read back equal to what was written. Two values are the same datum value exactly when they are equal, instants when they denote the same millisecond.",
  ["inputs", "histories"], "all values of all types, for both cardinalities and for unique attributes",
  "Tests write one or two friendly values per type; boundary values interact with search pivots, tree order and equality in ways only specific values show.",
  [IDX, TYPED, CMP, SNAP], [("conversion between values and typed trees", IDX + ": valuers"), ("search pivots", IDX + ": Select/First/Count"), ("value equality", SNAP + ": valuesEqual")],
  ["Select", "Has", "Count", "Write"], [DATUMS])

p("C19", "Concurrent writes and reads are linearizable",
  "Under any interleaving of concurrent writers and readers the outcome is that of executing the requests one at a time in transaction-id order, consistent with real time: no write is lost, no uniqueness, cardinality or id guarantee is broken by racing writers, every response's snapshot shows exactly its own write on top of all earlier ones, and every read sees the complete effects of a prefix of the writes that includes all writes finished before the read began.",
  ["schedules", "histories"], "all schedules of any number of concurrent readers and writers",
  "No test uses more than one goroutine.",
  [DB], [("one writer at a time under the database lock, snapshot taken before release", DB + ": Write, Read")], ["Write responses", "Read() snapshots"],
  [("lock", "guards all mutable state", DB + ": lock"), DATUMS])

p("C20", "Concurrent use is free of data races, crashes and deadlocks",
  "A database, its snapshots and the results they return may be used by any number of goroutines at once - reading, querying old and new snapshots, iterating, writing data and declaring attributes, recording and finding structs - without unsynchronised access to shared memory, fatal runtime errors or deadlock.",
  ["schedules"], "all schedules of concurrent reads, queries, iterations, data and schema writes",
  "No test uses more than one goroutine, so the race detector has nothing to see.",
  [DB, SNAP, IDX, TYPED, MOD, PUBI], [("database lock", DB + ": Read, Write"), ("snapshots share no mutable memory with the database", DB + ": read; " + IDX + ": Clone"), ("analyzer cache", MOD)],
  ["race detector reports", "process exit", "progress"], [("attribute types map", "shared by indexes and their clones", IDX + ": attrTypes")])

p("C21", "Indexes behave as sorted sets with independent clones",
  "An index behaves as a set of datums keyed by entity, attribute and value: inserting reports whether the key was present and keeps the extant datum, deleting removes exactly that key, and find, first, select, count and scan answer from exactly that set in the index's order for every partial key the index supports. A clone starts equal and from then on neither side's changes are visible in the other, through any chain of clones.",
  ["histories", "inputs"], "all operation sequences over index kinds, value types, partial keys, tree degrees and clone chains",
  "Tests insert a handful of datums with a wide tree degree, so trees have one node and clones share little; splits, merges and clone chains are not reached.",
  [IDX, SCAN, TYPED, CMP], [("generic b-trees per storage type", TYPED), ("composite dispatch by attribute type", IDX)], ["Index methods"],
  [("index contents", "set of datums", IDX + ": CompositeIndex")])

p("C22", "Structs recorded are structs read back",
  "Recording a struct and finding it by the returned id yields an equal struct of the same type: scalars and pointers to scalars of every supported type, nil and zero values, nested struct values and pointers, slices of scalars and structs in order, and maps of structs keyed by an attribute, at any nesting. Instants compare to the millisecond.",
  ["inputs", "programs"], "all struct types over the supported field kinds, at any nesting, and all their values",
  "Assembler tests start from hand-written datums and shredder tests stop at claims; the full path is tested for one struct with one string field.",
  [SHR, FLD, ASM, SCH, PUBI], [("shredding fields into claims", SHR + ": assert"), ("assembling datums into fields", ASM + ": assemble"), ("rank for order, key attribute for maps", SHR)],
  ["pkg/database Write, Find"])

p("C23", "Struct graphs keep their identity",
  "Within a request each distinct struct pointer is recorded as exactly one entity however often it is reached - from several fields, collections, assertions or through cycles - and distinct structs without identifying attributes become distinct entities. Recording and finding graphs with cycles terminates, the graph found has the shape that was recorded, and an entity reached on several paths, by pointer, value, map or slice, shows the same attributes on each.",
  ["inputs", "programs"], "all finite struct graphs with sharing and cycles over pointer, value, slice and map fields",
  "One test shreds a two-cycle and one assembles a two-cycle; sharing between differently shaped fields is not covered.",
  [SHR, ASM], [("pointer registry", SHR + ": confetti.pointers"), ("instance registry and work list", ASM)], ["pkg/database Write, Find", "datums recorded"])

p("C24", "Recording a struct touches only its own attributes",
  "Recording a struct whose id or identity fields name an existing entity updates that entity: fields present in the struct are set, and attributes the struct lacks, nil pointer fields and ignoreempty fields that are empty leave the stored values as they were; otherwise a new entity is created. No other entity's data changes, and conflicting identifiers reject the request.",
  ["inputs", "histories"], "all sequences of recordings of overlapping struct types with ids, identity, unique, ignoreempty and pointer fields",
  "One test renames one person by id; identity fields, ignoreempty, partial struct types and repeated recordings of the same type are untested end to end.",
  [SHR, DB, PUBI, SCH], [("id and tempid substitution", SHR + ": Shred"), ("ignoreempty and nil handling", SHR + ": assert"), ("identity upsert", DB + ": Write")], ["pkg/database Write, Find"])

p("C25", "Retracting a struct removes the entity it identifies",
  "Retracting a struct that identifies one entity by its id and/or its unique fields removes all of that entity's attributes, including those the struct type lacks, so that it is no longer found, while every other entity is untouched and older snapshots still find it. A struct that identifies no entity, several different entities, or lacks any identifier is rejected without effect.",
  ["inputs", "histories"], "all struct types and values used for retraction in all states",
  "One test retracts one struct by id.",
  [SHR, DB, PUBI], [("constraints from id and unique fields", SHR + ": retract"), ("retraction expansion", DB + ": Write")], ["pkg/database Write, Find"])

p("C26", "Schemas follow the struct declarations",
  "Recording a struct declares, for every attribute reachable through its type, exactly one attribute with the ident, value type, uniqueness and cardinality that the field's tag and Go type denote - however many types mention it - and ignores untagged fields. Recording struct types again, in any order, changes nothing; a struct type with an invalid tag or field type, or one that contradicts an attribute already declared, is rejected and leaves existing data intact.",
  ["programs", "inputs", "histories"], "all struct types over the supported and unsupported field kinds and tags, recorded in any order",
  "Tests compare the claims for seven types; sharing of attributes across types, untagged fields and the resulting database schema are untested.",
  [SCH, MOD, PUBI, DB], [("type traversal", SCH + ": Analyze"), ("tag parsing", MOD + ": Analyze")], ["schema datums", "pkg/database Write"])

p("C27", "An entity can be read into any struct type sharing attributes",
  "Finding an entity as a struct type yields exactly its values for the attributes that type names, whatever type it was recorded from: attributes the type lacks are ignored and fields without a datum stay at their zero value. Finding an id without datums yields nothing, and values found share no memory with the database: changing them does not affect later finds.",
  ["programs", "histories"], "all pairs of recording and reading types, all ids, in all states",
  "One test reads one overlapping string field.",
  [ASM, PUB, MOD], [("field lookup by attribute ident", ASM + ": assemble"), ("typed snapshots", PUB + ": Find")], ["pkg/database Find"])

p("C28", "The public database reports what it did",
  "An accepted public write returns one id per assertion, in order, each denoting the entity recorded for that assertion, and a snapshot showing the write; a rejected one returns an error and a snapshot of the unchanged entity data. Every public snapshot keeps its content forever, reads see the latest accepted write, and no entity data of a rejected request is ever visible.",
  ["inputs", "histories"], "all public requests mixing assertions and retractions, accepted or rejected, in all histories",
  "Tests inspect ids of two assertions of one type and one old snapshot; rejected public writes are never tried.",
  [PUB, PUBI, SHR], [("id translation", PUBI + ": Write"), ("snapshot wrapping", PUBI + ": Read, Write")], ["pkg/database Response, Snapshot"])

p("C29", "Malformed input is answered with an error, never a panic",
  "No request, query or find - with nil or mistyped values, missing or unsupported references, unknown entities, unsupported struct types, tags or nil structs - makes the library panic or hang: it is either meaningful or answered with an error or an empty result, and the database remains usable and unchanged by it.",
  ["inputs", "programs"], "all malformed requests, queries and struct types reachable through the API, in all states",
  "Tests try a handful of invalid requests and one invalid struct; mistyped queries and lookups, nil and untagged or unsupported structs are untested.",
  [DB, SNAP, IDX, SHR, FLD, SCH, MOD, ASM, PUB, PUBI], [("validation before type-dependent code", DB + ": evaluateClaim; " + SNAP + ": access"), ("model analysis errors", MOD)], ["all API calls"])

p("C30", "Requests and results belong to the caller",
  "Writing leaves everything about a request as it was, whether the write is accepted or rejected: its claims, its retractions, the structs, slices and maps it reaches, and the memory beyond the lengths of its slices. Whatever the caller does afterwards to what it passed or to what it was given - requests, responses, structs it recorded or found - changes nothing in the database, its snapshots or later answers.",
  ["inputs", "histories"], "all requests of claims, retractions and structs, accepted and rejected, and all changes a caller makes to requests and results afterwards",
  "No test looks at a request after writing it, gives a slice spare capacity, or changes what it passed or was given and asks again.",
  [DB, SHR, FLD, ASM, PUBI], [("claims of entity retractions are appended to the request's", DB + ": Write"), ("structs are read by reflection, and pointers are followed", SHR + ": assert"), ("structs found are made anew", ASM)],
  ["the request after Write", "answers after the caller's changes"])

p("C31", "Databases are independent of one another",
  "However many databases there are in a process, each behaves as if it were the only one. Nothing written to, declared in, read from or rejected by one - data, idents, attributes, struct types, ids - shows in another or changes what it accepts, and different databases may be used by different goroutines without any synchronisation.",
  ["histories", "schedules"], "all interleavings of the histories of any number of databases, and all parallel use of different ones",
  "Tests use one database at a time, and never ask one about what was written to another.",
  [DB, SYS, IDX, MOD, SCH, PUBI], [("the bootstrap data is copied into a new database", DB + ": NewIndexDatabase"), ("package variables are constant", SYS), ("caches belong to a database", MOD + "; " + PUBI)],
  ["all API calls on several databases"])

p("C32", "Operations leave nothing going on",
  "When an operation has returned - a write accepted or rejected, a read, a resolution, a count, a selection iterated to its end or broken off at any point, a struct recorded, retracted or found - nothing of it goes on: it leaves no goroutine and no suspended iteration behind, however many operations a process makes, on whatever snapshots.",
  ["inputs", "histories", "schedules"], "all histories of operations, with selections broken off at every position",
  "Tests never count what they leave behind; a suspended iteration per query shows only as memory that is never freed in long-running processes, and keeps its snapshot alive.",
  [SCAN, SNAP, DB, IDX, PUBI, ASM], [("sequences that are merged are pulled and stopped", SCAN + ": mergeEAV"), ("existence ends a selection at its first datum", SNAP + ": Has")],
  ["the goroutines of the process after a history, against those before it"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
