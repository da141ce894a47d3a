# The properties, their anchors and how each is checked. mk.py turns this into
# properties.jsonl and MANIFEST.json.

def P(id, title, statement, over, text, why, files, mech, technique, note, na=None):
    assert all(':' in m for m in mech), mech
    return dict(id=id, title=title, statement=statement,
                quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=m.split(' @ ')[0], where=m.split(' @ ')[1]) for m in mech]),
                technique=technique, level_note=note, na=na)

MON = 'runtime monitoring: '

PROPS = [
P('P01', 'XML round trip keeps every property and value',
  'Decoding an XMP packet and encoding the resulting document yields a packet that carries the same properties with the same values, array kinds, item order, languages, structure fields, rdf:about and toolkit, for properties of registered and of unregistered namespaces alike. '
  'Encoding is a fixed point: decoding the output and encoding again changes nothing.',
  ['inputs'], 'all documents over the registered models and arbitrary foreign namespaces, in every value shape of the XMP data model',
  'The tests round-trip the sample files and a few hand-written documents and mostly compare only for errors; the space of (property, value shape, text) combinations is far larger than the samples.',
  ['xmp/marshal.go', 'xmp/unmarshal.go', 'xmp/node.go', 'xmp/array.go', 'models'],
  ['XML encoder @ xmp/marshal.go:Encoder.Encode', 'XML decoder @ xmp/unmarshal.go:Decoder.Decode', 'raw tree of unknown properties @ xmp/node.go:Node.UnmarshalXML'],
  MON + 'generated, spelled-out and corpus documents are decoded and encoded by the library while an independent strict RDF/XML reader compares what went in with what came out',
  'random documents over a committed table of 24 models, every property, every known leaf value, unregistered namespaces and the sample corpus; bounded by the number of cases, not exhaustive'),
P('P02', 'Equivalent RDF/XML spellings decode alike',
  'Two packets that differ only in RDF/XML spelling (attribute or element form, the three forms of structures, how properties are spread over rdf:Description elements, prefixes of registered namespaces, CDATA, character references, comments, white space, padding, packet wrapper, order) decode to documents with the same paths and the same encoded content. '
  'Reading from a stream in arbitrary pieces gives the same document as decoding the whole buffer.',
  ['inputs'], 'all documents times all equivalent spellings, and all ways a reader may chunk its data',
  'The tests use one spelling per value; the product of spellings with value shapes is never formed.',
  ['xmp/unmarshal.go', 'xmp/node.go', 'xmp/reader.go', 'xmp/array.go'],
  ['decoder of attributes, elements and parseType @ xmp/unmarshal.go:Decoder.unmarshal', 'raw node reader @ xmp/node.go:Node.UnmarshalXML', 'Read @ xmp/reader.go:Read'],
  MON + 'metamorphic comparison of a plain and a randomly respelled packet of the same generated document by path list and re-encoded content',
  'random spellings over 14 style dimensions'),
P('P03', 'Registered properties land in their typed model',
  'Every property of a registered namespace that a packet carries, in any spelling, is decoded into the typed model registered for that namespace, with the property name, array kind and text the standard table gives it. '
  'It is then listed by the path listing and returned verbatim when read by its path, and FindModel and MakeModel of the model\'s package lead to that model.',
  ['inputs'], 'all registered properties with all values of their domain, nested structures and array items included',
  'The tests look at a handful of properties of the sample files; most of the ~1000 properties of the 24 models are never read back by path.',
  ['xmp/typeinfo.go', 'xmp/registry.go', 'xmp/path.go', 'models'],
  ['type information and struct tags @ xmp/typeinfo.go:getTypeInfo', 'model lookup @ xmp/registry.go:registry', 'path listing @ xmp/path.go:ListPaths'],
  MON + 'oracle: a committed table of property names, kinds and canonical texts; model, node, path list and GetPath are compared with it',
  'every usable property and every known leaf value at least once per run'),
P('P04', 'JSON form is lossless and agrees with the XML form',
  'The JSON form of a document carries the same properties and values as its XML form: decoding the JSON again gives a document whose paths and XML are those of the original, and the JSON is valid, deterministic and holds exactly the expected members. '
  'Hand-written JSON of that format is read as the document it describes.',
  ['inputs'], 'all documents within the JSON format (no arrays of arrays, no qualifiers)',
  'The JSON tests round-trip sample files and check only for errors or one property.',
  ['xmp/json.go', 'xmp/xmp_types.go', 'xmp/array.go'],
  ['JSON encoder and decoder @ xmp/json.go:Document.MarshalJSON', 'language alternatives @ xmp/array.go:AltString.MarshalJSON'],
  MON + 'decode XML, write JSON, read JSON, write XML; every stage is compared with the generated abstract document by independent readers',
  'random documents over all models; unregistered bags come back as sequences, which the format cannot tell apart'),
]

PROPS += [
P('P05', 'No input crashes, hangs or exhausts memory',
  'Whatever bytes are handed to the XML decoder, the JSON decoder or the packet scanner, and whatever strings are used as paths or values, the library returns a result or an error: no panic, no endless loop, no unbounded memory. '
  'A document that was accepted can afterwards be listed, read and written without a panic either, and what it writes can be read again.',
  ['inputs', 'fault_sequences'], 'all byte strings, all mutations of valid packets and JSON, all paths',
  'Hostile inputs are unbounded; the tests hold only well-formed samples.',
  ['xmp/unmarshal.go', 'xmp/node.go', 'xmp/json.go', 'xmp/path.go', 'xmp/reader.go', 'models'],
  ['decoder @ xmp/unmarshal.go:Decoder.Decode', 'path evaluation @ xmp/path.go:Document.SetPath', 'text unmarshalers of the models @ models/exif/types.go:OECF'],
  MON + 'mutation workloads on byte, tree, value, JSON, stream and path level in child processes; monitors catch panics, fatal errors, CPU time, wall time and heap size, and use every accepted document',
  'some ten thousand mutants per quick run; every leaf of every model gets hostile text, every property values of the wrong kind'),
P('P06', 'Size limits, padding and write errors are honoured',
  'With a maximum size the encoder never writes more than that many bytes: a document that fits is written completely (padded to exactly that size if padding is on), one that does not fit is refused with ErrOverflow. '
  'An error of the underlying writer is always reported by Encode, and neither leaves the document changed.',
  ['inputs', 'fault_sequences'], 'all documents, encoder options, limits, and all points at which a writer may fail',
  'No test encodes with a limit or a failing writer; the guarantee is about every byte position.',
  ['xmp/marshal.go'],
  ['limit and padding @ xmp/marshal.go:Encoder.Encode', 'byte counter @ xmp/marshal.go:countWriter'],
  MON + 'fault injection and boundary limits around the exact size while an outside writer counts the bytes; successful output is compared with the unlimited one by an independent reader',
  'random documents, limits around the exact size, and writer faults at random positions and calls'),
P('P07', 'Output is well-formed namespaced RDF/XML',
  'Everything the encoder writes is well-formed XML with every prefix declared, one x:xmpmeta with one rdf:RDF, and each property an element or attribute in its own namespace in a form RDF/XML allows (arrays as rdf:Seq, Bag or Alt with rdf:li, languages as xml:lang, no duplicate properties). '
  'This holds for any text content and also for models and values set through Go.',
  ['inputs'], 'all documents the encoder accepts, all texts, all encoder options',
  'The tests never parse the output with anything but the library itself, which is lenient.',
  ['xmp/marshal.go', 'xmp/node.go', 'xmp/namespace.go', 'xmp/array.go'],
  ['encoder of properties and structures @ xmp/marshal.go:Encoder.marshalValue', 'raw nodes and their declarations @ xmp/node.go:Node.MarshalXML'],
  MON + 'an independent strict namespace-aware RDF/XML reader checks every output of generated documents, hostile texts, every structure and documents built through Go',
  'random documents; two deviations of one structure are listed as known findings'),
P('P08', 'Packet scanning finds exactly the packets of a stream',
  'ScanPackets returns exactly the XMP packets embedded in a binary stream, complete and in order, whatever surrounds them, however large they are and however the reader chops its data; without packets it reports io.EOF. '
  'Errors of the reader are reported, a truncated packet or document is never returned as whole, and Scan decodes the first packet to what decoding it directly gives.',
  ['inputs', 'fault_sequences'], 'all streams and packet sizes, all ways a reader delivers its data or fails',
  'The tests scan one small file with one reader; marker positions relative to buffer boundaries are never varied.',
  ['xmp/reader.go'],
  ['split function @ xmp/reader.go:splitPacket', 'packet check @ xmp/reader.go:isXmpPacket'],
  MON + 'streams are composed of known packets, misleading fragments and arbitrary data, and read through chopping and failing readers; the composition is the oracle',
  'random compositions, packets up to 1 MB, markers at all offsets from the buffer boundaries'),
]

PROPS += [
P('P09', 'Path edits are exact, complete and durable',
  'After any sequence of path edits - setting, replacing, appending and deleting values, array items, languages and whole properties - the document is the original one with exactly those edits: the path list, every single path, the XML and the JSON show them, and nothing else changed. '
  'Edits survive saving and reading back, whatever other models of the document keep copies of the property.',
  ['histories', 'inputs'], 'all sequences of edits on all documents, registered and unregistered properties',
  'The tests set a few paths of fresh models and never read the whole document back; the outcome depends on the history of the document.',
  ['xmp/path.go', 'xmp/node.go', 'xmp/document.go', 'xmp/marshal.go'],
  ['path edits @ xmp/path.go:Document.SetPath', 'typed values @ xmp/path.go:SetModelPath', 'untyped values @ xmp/node.go:Node.SetPath', 'copies in other models @ xmp/document.go:Document.clearCopies'],
  MON + 'random edit histories run on the document and on an independent reference; after every edit the complete path list, and at the end XML and JSON (read by independent readers), are compared',
  'some 100,000 edits per quick run over documents of all models'),
P('P10', 'Flags decide what a path edit may do; refused edits change nothing',
  'For every combination of CREATE, REPLACE, DELETE, APPEND, UNIQUE and NOFAIL, setting a path creates, overwrites, extends or clears exactly when the documented meaning of the flags allows it, and reports an error exactly when it was refused without NOFAIL. '
  'An edit that is refused or fails (wrong flags, malformed path, undeclared prefix, index out of range, text the type cannot take) leaves the document as it was.',
  ['histories', 'inputs', 'configurations'], 'all flag combinations, targets (value, item, array, language, alternative; existing or missing; typed or raw) and values',
  'The tests use five flag combinations on a few properties and never look at the document after an error.',
  ['xmp/path.go', 'xmp/node.go', 'xmp/sync.go'],
  ['flag rules @ xmp/path.go:Document.SetPath', 'flag rules of typed values @ xmp/path.go:SetModelPath', 'flag rules of untyped values @ xmp/node.go:Node.SetPath', 'documented meaning @ xmp/sync.go:SyncFlags'],
  MON + 'random histories over all 64 flag combinations and failing edits; an oracle written from the flag documentation predicts refusal, error and the new state, which is compared with the complete path list after every call',
  'some 200,000 edits per quick run; combinations the documentation leaves open (an alternative without default) are skipped'),
]

PROPS += [
P('P11', 'Merging two documents gives the documented combination',
  'Document.Merge gives, for every pair of documents and for MERGE, EXTEND, REPLACE and ADD flags, exactly the combination the flags document: existing values are kept or replaced, missing ones added, alternatives joined language by language, arrays position by position, unregistered properties included. '
  'The source document is not changed, merging the same document again changes nothing, and the result survives saving and reading back.',
  ['inputs', 'histories', 'configurations'], 'all pairs of documents, equal or different prefixes for the same namespace, all merge flags',
  'One test merges two sample files and checks a handful of properties; prefix clashes between documents never occur in the samples.',
  ['xmp/document.go', 'xmp/path.go', 'xmp/node.go'],
  ['merge @ xmp/document.go:Document.Merge', 'listed paths @ xmp/document.go:Document.ListPaths', 'application @ xmp/path.go:Document.SetPath'],
  MON + 'random pairs of documents (related and unrelated, with clashing prefixes) are merged; an independent overlay of two references predicts the result, which is compared by path list, XML and JSON',
  'nesting within arrays is excluded: such paths are not addressable'),
]

PROPS += [
P('P12', 'Values move between models only by the documented rules',
  'Document.Sync and SyncMulti copy a property of one model to one of another exactly as the flags allow and only if both exist, converting at most once; SyncModels collects every asset identifier once. '
  'Loading a document and saving a changed one align the models that describe the same facts (id3, riff, iXML, pdf with dc, xmp, xmpDM, xmpRights) by the fixed pairs and leave every other property alone; saving again changes nothing.',
  ['inputs', 'histories', 'configurations'], 'all combinations of models and values, all source and destination properties, all flags',
  'No test syncs two models with values on both sides; the outcome depends on which models a document has and in which order.',
  ['xmp/sync.go', 'xmp/document.go', 'models/id3/model.go', 'models/xmp_base/model.go', 'models/ixml/model.go'],
  ['explicit sync @ xmp/sync.go:Document.Sync', 'implicit sync on load @ xmp/document.go:Document.syncFromXMP', 'implicit sync on save @ xmp/document.go:Document.syncToXMP', 'identifiers @ models/xmp_base/model.go:identifierDesc'],
  MON + 'tables of the documented transfers and the flag oracle predict the state after random Sync calls, loads and saves; complete path lists and saved documents are compared with the prediction',
  'converted values (dates, genres, counters) are only checked for presence; exif and tiff native strings are not set'),
]

PROPS += [
P('P13', 'Documents are independent of each other',
  'Whatever happens to other documents - editing, closing (even twice), merging, writing, decoding of valid, broken or hostile input - a document and everything obtained from it before stay as they are, and a failed decode into an existing document leaves it alone. '
  'The recycled nodes are never shared: a node is handed out once, empty, and never while a document still uses it.',
  ['histories', 'inputs'], 'all interleaved histories over several documents of one process',
  'Tests use one document each; sharing through the node pool shows only when documents live, die and overlap in certain orders.',
  ['xmp/node.go', 'xmp/document.go', 'xmp/marshal.go', 'xmp/unmarshal.go', 'xmp/json.go'],
  ['node pool @ xmp/node.go:NewNode', 'release @ xmp/node.go:Node.Close', 'copies @ xmp/node.go:copyNode', 'release of documents @ xmp/document.go:Document.Close'],
  MON + 'several documents with a reference each run interleaved histories; after every operation all are compared; the pool is drained regularly and its nodes are checked to be unique, empty and unreachable from any document',
  '5000 histories over 2-4 documents per quick run; the models shared by the caller between documents are not covered'),
]

PROPS += [
P('P14', 'Independent documents can be processed concurrently',
  'Goroutines that work on documents of their own - loading, editing, merging, syncing, writing, JSON, native tags, filters - never race on shared state (type caches, node pool, registry, tables), from the first use in a process on. '
  'Each observes exactly what it observes when it runs alone.',
  ['schedules', 'inputs'], 'all numbers of goroutines, all work on documents they do not share',
  'No test uses a goroutine.',
  ['xmp/typeinfo.go', 'xmp/node.go', 'xmp/registry.go', 'xmp/document.go', 'models'],
  ['type cache @ xmp/typeinfo.go:getTypeInfo', 'node pool @ xmp/node.go:NewNode', 'registry @ xmp/registry.go:Registry'],
  MON + 'race detector over concurrent jobs with injected delays, in a warm process and in fresh processes with cold caches; the log of every job is compared with its log when run alone',
  '3-8 goroutines; SetAgent, SetLogger and SetLogLevel are configuration to be called before'),
P('P15', 'The namespace registry is consistent under concurrent use',
  'Namespaces can be registered while others look them up and load documents: a lookup by prefix, URI, group or list sees every registration that was complete when it began, nothing that began after it, nothing overwritten and nothing half done. '
  'Lists returned belong to the caller, groups keep the order of registration.',
  ['schedules', 'histories'], 'all interleavings of registrations and lookups',
  'Tests register namespaces only during start-up.',
  ['xmp/registry.go', 'xmp/namespace.go'],
  ['registration @ xmp/registry.go:Registry.RegisterNamespace', 'lookups @ xmp/registry.go:Registry.GetNamespace', 'lists @ xmp/registry.go:Registry.GetGroupNamespaces'],
  MON + 'histories of concurrent registrations and lookups are recorded with a logical clock under the race detector and checked offline against the interval rules of a linearizable map',
  '1500 histories per quick run'),
]

PROPS += [
P('P16', 'Removing and filtering namespaces removes exactly those',
  'RemoveNamespace, RemoveNamespaces, FilterNamespaces and filters (built or parsed from a string with signs and groups, strict or lenient) remove every property of the namespaces named, or of all but those to keep, and nothing else; the result tells whether anything was removed. '
  'What was removed does not come back from copies in other models on listing, saving or JSON, and the rest of the document can still be edited, written and read back.',
  ['inputs', 'histories', 'configurations'], 'all documents, all lists and filter strings',
  'The tests filter one or two namespaces and only look at the top-level nodes.',
  ['xmp/document.go', 'xmp/filter.go', 'xmp/namespace.go'],
  ['removal @ xmp/document.go:Document.RemoveNamespace', 'keep list @ xmp/document.go:Document.FilterNamespaces', 'filters @ xmp/filter.go:Filter.Apply', 'filter strings @ xmp/filter.go:ParseFilter', 'groups @ xmp/namespace.go:ParseNamespaceGroup'],
  MON + 'random removals and filter strings mixed with edits; a reference document and a table of the groups predict result, path list, XML and JSON',
  'filters that include only the empty group vfx are left out'),
]

PROPS += [
P('P17', 'Core value types keep and understand their text',
  'Bool, Date, Time, GUID, Rational, Duration, the nullable numbers, strings and booleans, split integers and sync flags read every documented spelling as the value it denotes (dates in all accepted layouts with zones and fractions of a second, decimals and exponents, units, shutter speeds). '
  'A text that is no such value is an error and leaves the variable as it was, and so does a placeholder like "--" or "unknown" for the nullable types. '
  'A value comes back unchanged from the text and from the JSON it is written as.',
  ['inputs'], 'all values and all spellings of them',
  'The tests read a handful of spellings; the layouts interact, and nearly all go wrong for rare values only.',
  ['xmp/xmp_types.go', 'xmp/units.go', 'xmp/sync.go'],
  ['dates @ xmp/xmp_types.go:ParseDate', 'zone repair @ xmp/xmp_types.go:repairTZ', 'rationals @ xmp/xmp_types.go:Rational.UnmarshalText', 'numbers @ xmp/units.go:ParseNullFloat64', 'durations @ xmp/units.go:ParseDuration', 'split integers @ xmp/units.go:SplitInt.UnmarshalText', 'flags @ xmp/sync.go:ParseSyncFlags'],
  MON + 'texts are generated together with the value they denote by an independent reference (own calendar, exact rationals); every parse, refusal, rewrite and JSON pass is compared with it',
  'years 1 to 9999; decimals read as rationals within float32 precision, 0.5% below one (shutter speeds)'),
]

PROPS += [
P('P18', 'Value types of the models keep and understand their text',
  'Frame counts, rates and rational frame rates, parts, markers and time codes (xmpDM), EXIF dates, flash, CFA, OECF and device settings, GPS coordinates, ID3 dates, genres and track numbers, QuickTime and iTunes ratings, iXML lists and the value types of the other models read each documented spelling as the value it denotes. '
  'Other texts are refused and leave the variable alone, and a value comes back unchanged from the text, JSON and XMP it is written as. '
  'Marker lists sort by time and filter by type.',
  ['inputs'], 'all values of these types and all their spellings',
  'Tests cover a few of these types with one or two texts; conversions go wrong for particular numbers only.',
  ['models/xmp_dm/types.go', 'models/exif/types.go', 'models/id3/types.go', 'models/ixml/enum.go', 'models/qt/types.go', 'models/pm/model.go', 'models/itunes/types.go', 'models/crs/types.go', 'models/riff/types.go'],
  ['frame counts @ models/xmp_dm/types.go:FrameCount.UnmarshalText', 'parts @ models/xmp_dm/types.go:Part.UnmarshalText', 'time codes @ models/xmp_dm/types.go:Timecode.Unpack', 'genres @ models/id3/types.go:ParseGenreV1', 'EXIF dates @ models/exif/types.go:Date.UnmarshalText'],
  MON + 'texts are generated together with their meaning by an independent reference per type; parsing, refusal, rewriting, JSON and XMP passes, sorting and filtering are compared with it',
  'durations with up to nine fraction digits; parts with a start have a duration'),
]

PROPS += [
P('P19', 'iXML chunks mean what the iXML specification says',
  'IXML.ParseXML and UnmarshalText read every element of a BWF iXML chunk in any order and layout, translate what older versions wrote (take flags, pre-record sample count) and keep private elements; the chunk written again with encoding/xml, the XMP and JSON of the model and the chunk written after reading those carry the same values. '
  'A broken chunk is an error and leaves the model as it was. '
  'SyncToXMP hands the documented values over to xmpDM, the start time code being the exact sample time counted at the nominal frame rate.',
  ['inputs'], 'all iXML chunks, versions 1.3 to 2',
  'No test reads a chunk; the formats meet in hundreds of optional elements, and time codes go wrong for single sample counts.',
  ['models/ixml/model.go', 'models/ixml/types.go', 'models/ixml/enum.go', 'xmp/xmp_ext.go'],
  ['parsing @ models/ixml/model.go:IXML.ParseXML', 'upgrades @ models/ixml/model.go:IXML.upgrade', 'lists @ models/ixml/types.go:TrackList.UnmarshalXML', 'time code @ models/ixml/types.go:Speed.XmpTimecode', 'private data @ xmp/xmp_ext.go:NamedExtensionArray.MarshalXMP', 'values handed over @ models/ixml/model.go:IXML.SyncToXMP'],
  MON + 'an independent generator knows for each chunk its XMP values and the chunk a current writer produces; both are compared after parsing, rewriting, two XMP passes, JSON; start times are compared with integer arithmetic',
  'private elements of one chunk have different names; attributes of private elements are only compared in chunks (RDF cannot express them)'),
]

PROPS += [
P('P20', 'Collections keep their invariants',
  'Lists of words, identifiers, references, take and location types and function sets (Add, AddUnique, Remove, Del, Index, Contains, Merge, Sub), alternatives, path, node, namespace and marker type lists behave like plain sequences and sets under every sequence of operations. '
  'An alternative has exactly one default, at its front, one text per language, finds the text last set for a language and is the same after a pass through XMP. '
  'The constant function sets never change.',
  ['histories'], 'all histories of operations on these types',
  'Tests call a few of these methods once; order, defaults, repeated elements and shared storage only matter after several calls.',
  ['xmp/array.go', 'xmp/path.go', 'xmp/node.go', 'xmp/namespace.go', 'models/ixml/enum.go', 'models/xmp_base/types.go', 'models/xmp_mm/types.go'],
  ['alternatives @ xmp/array.go:AltString.Set', 'defaults @ xmp/array.go:AltString.EnsureDefault', 'words @ xmp/array.go:StringList.Remove', 'path lists @ xmp/path.go:PathValueList.Diff', 'nodes @ xmp/node.go:NodeList.AddNode', 'function sets @ models/ixml/enum.go:FunctionSet.Del', 'identifiers @ models/xmp_base/types.go:IdentifierArray.Remove'],
  MON + 'random histories run on the collection and on a reference implementation; contents, order, results, invariants, constants and XMP passes are compared after every operation',
  'alternatives are not given a second text for a language with Add (Set replaces it)'),
]

PROPS += [
P('P21', 'Native tags read back, are listed and reach the packet',
  'For every native tag with a text form of the EXIF, ID3, iTunes, MP4, QuickTime and RIFF models, and for models a user writes, SetTag/SetNativeField takes a value, GetTag and ListTags show exactly the values last set, CanTag agrees, no other tag changes, and the packet carries the value in the property of the tag and gives it back when read. '
  'QuickTime tags reach their part (user data, metadata, player, applications, iXML, XMP), ID3 v1 and v2.2 names and EXIF numbers in any case mean the tag of the current version, and locale tags behave as an alternative. '
  'Models without native tags take their field names as tags; unknown tags and malformed values are refused and change nothing.',
  ['histories'], 'all native tags of all models and histories of setting them',
  'There are 667 tags in struct tags and name tables and no test sets one; a wrong name, part or conversion only shows for that tag.',
  ['xmp/native.go', 'xmp/typeinfo.go', 'models/id3/model.go', 'models/exif/model.go', 'models/qt/model.go', 'models/riff/model.go', 'models/mp4/model.go', 'models/itunes/model.go'],
  ['setting @ xmp/native.go:SetNativeField', 'reading @ xmp/native.go:GetNativeField', 'listing @ xmp/native.go:ListNativeFields', 'locale tags @ xmp/native.go:SetLocaleField', 'names of other ID3 versions @ models/id3/model.go:mapTagToV24', 'QuickTime parts @ models/qt/model.go:QtInfo.SetTag'],
  MON + 'random histories of tag calls run against a plain map; every tag of the committed table is read after them, the tag list, the written packet (independent RDF reader) and the packet read again are compared',
  'tags whose Go type cannot be given or read as text (frames with structure) and other tags than the declared ones in models with a catch-all field are left out; lists collect what is set'),
]

PROPS += [
P('P26', 'EXIF, QuickTime and ID3 notations are converted exactly',
  'Each EXIF tag with a number, ratio, text or packed value (flash bits, CFA pattern, response tables, device settings), dates with separate fractions of a second, lists of artists, texts, GPS coordinates with their reference and GPS date and time of the EXIF model, ISO 6709 locations of QuickTime and the three date frames of ID3v2.3 appear in the packet as the XMP property of the same meaning: the same instant to the nanosecond, the same place to 1e-7 minutes, with the sign or reference kept and minutes below 60. '
  'Reading such a packet, or one of another program with the dc, xmp, photoshop, tiff and exif properties, gives native tags of the same meaning (date and time as written in its zone).',
  ['inputs'], 'all native values in the notations of EXIF, ISO 6709 and ID3 and all packets with their XMP properties',
  'Native and XMP notations differ in units, signs, digits and separators; errors show for single values such as a fraction with leading zeros or 59.99999 minutes.',
  ['models/exif/model.go', 'models/exif/types.go', 'models/qt/qt_metadata.go', 'models/qt/types.go', 'models/id3/model.go'],
  ['EXIF to XMP @ models/exif/model.go:ExifInfo.SyncToXMP', 'XMP to EXIF @ models/exif/model.go:ExifInfo.SyncFromXMP', 'coordinates @ models/exif/types.go:convertGPStoXMP', 'GPS time @ models/exif/types.go:convertGPSTimestamp', 'fractions @ models/exif/types.go:convertDateToXMP', 'locations @ models/qt/qt_metadata.go:QtMetadata.SyncToXMP', 'ID3 dates @ models/id3/model.go:ID3.SyncToXMP'],
  MON + 'random native values and packets; the written packet is read by an independent RDF reader and compared with exact rational arithmetic, the packet is read and written again and the native tags compared',
  'GPS coordinates are not converted from XMP to EXIF by the code (documented as to do) and not asked for'),
]

PROPS += [
P('P24', 'A decoder of a version takes the fields of that version and keeps the rest',
  'Versions are ordered by major, minor and patch number and parsed from one to three numbers; other texts are refused. '
  'A decoder given a version fills exactly the model fields whose version range (exact, from, until, span, with or without attributes, two fields of one name) holds that version, or all without a version. '
  'Properties the version does not know are kept in the document and written again unchanged.',
  ['configurations'], 'all versions and all version ranges of fields',
  'Only the ID3 model has versions and no test sets one; limits go wrong only for versions on or next to them.',
  ['xmp/semver.go', 'xmp/typeinfo.go', 'xmp/unmarshal.go', 'models/id3/model.go'],
  ['order @ xmp/semver.go:Version.Between', 'ranges @ xmp/typeinfo.go:structFieldInfo', 'choice of fields @ xmp/unmarshal.go:Unmarshal', 'versions of frames @ models/id3/model.go:ID3'],
  MON + 'random versions on and around the limits; ordering is compared with triples, the fields filled with a table of ranges, the written packet with the packet read (independent RDF reader)',
  'fields with versions inside nested structures are left out'),
]

PROPS += [
P('P27', 'Go values, packet, JSON and paths show the same, and failures are returned',
  'For a model with fields of any supported Go type (numbers of all sizes, pointers, pointers to zero values, slices and fixed arrays with and without methods, embedded structures, types with text, XMP or attribute methods on the value or the pointer), the written packet holds exactly the set fields in their RDF form, and packet, any other RDF form of it, JSON and the listed paths each give back the same Go values. '
  'Writing changes nothing in the model, omitted fields never appear and fields to be written empty always do. '
  'An error from a method of any field reaches the caller of the operation that met it, and a refused value leaves the model as it was.',
  ['inputs', 'fault_sequences'], 'all values of models with every kind of field and failing methods at every place',
  'The encoder chooses among some forty combinations of kind, pointer, method and flag and the tests meet few; a wrong choice crashes, drops a value or hides an error only there.',
  ['xmp/marshal.go', 'xmp/unmarshal.go', 'xmp/path.go', 'xmp/typeinfo.go', 'xmp/array.go', 'xmp/json.go'],
  ['writing values @ xmp/marshal.go:Encoder.marshalValue', 'writing attributes @ xmp/marshal.go:Encoder.marshalAttr', 'reading values @ xmp/unmarshal.go:Decoder.unmarshal', 'setting by path @ xmp/path.go:Document.SetPath', 'arrays @ xmp/array.go:MarshalArray'],
  MON + 'random Go values; the packet read by an independent RDF reader and the model read back are compared with a tree computed from the Go values and a committed schema; methods fail on demand at each place and the error is followed',
  '[N]byte and arrays of arrays are left out for paths, as are types that read attributes only for JSON'),
]

PROPS += [
P('P25', 'Media management keeps ingredients, history and versions whole',
  'Every property of every item of an xmpMM pantry, of registered and other namespaces and in any RDF form, is kept by reading, writing, JSON, merging and paths, and a document added to the pantry appears there with exactly its properties and is not changed. '
  'After any sequence of history and version calls, with writing and reading in between, the packet and the getters show the events in order and one version entry for each run of equal version ids with all its changes.',
  ['inputs', 'histories'], 'all pantries of up to four items and histories of up to fourteen calls',
  'A pantry nests whole documents of any namespaces in one property, the sample files have three; losses depend on the RDF form and the namespace of the nested property.',
  ['xmp/xmp_ext.go', 'models/xmp_mm/model.go', 'models/xmp_mm/types.go', 'xmp/path.go', 'xmp/json.go'],
  ['writing items @ xmp/xmp_ext.go:Extension.MarshalXMP', 'reading items @ xmp/xmp_ext.go:Extension.UnmarshalXMP', 'adding documents @ models/xmp_mm/model.go:XmpMM.AddPantry', 'versions @ models/xmp_mm/model.go:XmpMM.AppendVersionHistory', 'paths into items @ xmp/path.go:SetModelPath'],
  MON + 'random pantries in random RDF forms pass through each operation and the items of the packet written are compared by an independent RDF reader; histories run against a plain list',
  'array types of unknown properties are not compared where only paths or JSON carry them; identifiers with a scheme are left out for paths'),
]

PROPS += [
P('P22', 'Reading changes nothing, and equal input gives equal output',
  'Reading operations (path access and lists, tags, nodes and namespaces, and, once changes are saved, listing and writing) leave everything a program can see of a document and its models as it was, and give the same answer whenever they are called. '
  'Documents read from equal packets or JSON, also into a document used before, are equal, and write equal packets and JSON byte for byte. '
  'Writing an unchanged document again gives the same bytes.',
  ['inputs', 'histories'], 'all documents, including models of any Go values, pantries and the sample files, and orders of reading operations',
  'Map order and allocation on read show only for some documents, some orders or some runs; a test that passes once shows nothing.',
  ['xmp/document.go', 'xmp/path.go', 'xmp/marshal.go', 'xmp/json.go', 'xmp/native.go', 'xmp/node.go'],
  ['fields without allocation @ xmp/typeinfo.go:fieldInfo.peek', 'reading paths @ xmp/path.go:GetModelPath', 'writing @ xmp/marshal.go:Encoder.Encode', 'JSON @ xmp/json.go:Document.UnmarshalJSON', 'namespaces of nodes @ xmp/node.go:Node.Namespaces', 'sync on write @ xmp/document.go:Document.syncToXMP'],
  MON + 'a reflective dump of the document and its models is compared after each of up to 28 random reading operations, answers with earlier answers and the document with a second one from the same input',
  'the order of the list of namespaces is not defined and not compared'),
P('P23', 'Changes made after saving are in everything saved or listed next',
  'After a document was written or listed, a change by path, merge, sync, a new or added model, or a model field with SetDirty is found in the next packet, JSON form and path list. '
  'So is every property of another model which the changed one determines (title, rights, comments, scene and so on).',
  ['histories'], 'all orders of saving, changing in six ways and looking in three ways',
  'The document keeps a flag that decides whether models are synchronised; a path that forgets it goes unnoticed unless the document was saved before the change.',
  ['xmp/document.go', 'xmp/path.go', 'xmp/sync.go', 'models/id3/model.go', 'models/ixml/model.go'],
  ['changed flag @ xmp/document.go:Document.syncToXMP', 'changes by path @ xmp/path.go:Document.SetPath', 'changes by sync @ xmp/sync.go:Document.Sync', 'changes by merge @ xmp/sync.go:Document.Merge', 'new models @ xmp/document.go:Document.MakeModel'],
  MON + 'random documents are saved, changed and looked at; the changed property and the one derived from it by a table of the documented transfers are compared with the new text',
  ''),
]

PROPS += [
P('P28', 'Standard properties keep the form and value the standards give them',
  'A packet that uses the properties of the public schemas (dc, xmp, xmpRights, xmpMM, xmpBJ, xmpTPg, xmpDM, pdf, photoshop, crs, tiff, exif, aux) in the form and with the values the standards define is accepted. '
  'Writing it again gives each property as the same kind (text, unordered, ordered or alternative array, languages, structure) with the same value (numbers, dates and rationals by value), '
  'also for properties the library moves to the current name.',
  ['inputs'], 'all values of the standards for about 400 properties, alone and together, in all RDF forms',
  'The other round trip checks take the form of a property from the library; a model with the wrong form passes them and refuses or changes the files of every other program.',
  ['models/exif/types.go', 'models/exif/model.go', 'models/tiff/model.go', 'models/ps/model.go', 'models/xmp_mm/types.go', 'models/dc/model.go', 'models/xmp_dm/model.go', 'models/crs/model.go'],
  ['forms of exif structures @ models/exif/types.go:CFAPattern', 'ancestors @ models/ps/model.go:Anchestor', 'versions @ models/xmp_mm/types.go:StVersionArray', 'moved properties @ models/tiff/model.go:TiffInfo.SyncFromXMP'],
  MON + 'random values by a table of forms written from the standards, in random RDF forms; the packet written is compared by an independent RDF reader that compares numbers, dates and rationals by value',
  'zero values are absent by design; known findings: eight ordered lists of exported slice types written unordered, exif:UserComment without languages'),
]
