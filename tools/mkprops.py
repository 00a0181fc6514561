import json
S="yam-core/src/parsing/source.rs";B="yam-core/src/parsing/buffered_source.rs";SC="yam-core/src/parsing/scanner.rs";P="yam-core/src/parsing/parser.rs";PI="yam-core/src/parsing/parser_iter.rs";L="yam-core/src/prelude/loader.rs";M="yam-core/src/prelude/mod.rs";SE="yam-serde/src/ser.rs";DE="yam-serde/src/de.rs";EM="yam-core/src/saphyr_emitter/mod.rs"
def m(n,w): return {"name":n,"where":w}
props=[]
def add(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":mech}
    if state: a["state"]=state
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    props.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

add("C01","Parsing is independent of how a source delivers the bytes",
"For one byte stream, every conforming byte source leads to the same events, the same spans and the same final error, whatever its window size, refill timing, advertised buffer length, and whether bulk operations are done in one step or byte by byte. In particular, parsing a string directly and parsing the same bytes through a small refilled buffer agree exactly.",
["inputs","schedules","configurations"],"every stream (well-formed, truncated or corrupted), every chunking and refill schedule, every advertised buffer length of at least 8 bytes, every mix of bulk and byte-wise source operations",
"Tests parse short literals through the string source only; the refilled source is never put under a parser, and no test crosses a window boundary inside a token.",
[S,B,SC],[m("Source trait: the seam between the scanner and the bytes",S),m("string source and buffered byte source implementations",S+", "+B),m("scanner loops driven by the advertised buffer length",SC)],
observe=["events and spans returned by the parser"],hook="cfg(yam_sim): re-export of the buffered source and of the skip-result type that a Source implementation must return")

add("C02","Shipped byte sources are exact windows on their stream",
"Under any sequence of peek, skip and bulk-read calls and any refill pattern, each byte source the library ships behaves as a plain queue of its stream's bytes: nothing is lost, duplicated, invented or altered. Bulk operations consume exactly the bytes they report, end-of-stream is reported exactly when every byte was consumed, and a whitespace skip stops at the first byte that is not whitespace or comment and reports the tabs and blanks it saw truthfully.",
["inputs","schedules","histories"],"every byte stream of valid UTF-8, every history of source calls that respects the documented bounds, every refill pattern",
"Two or three unit tests call one method on one fixed string; interleavings of bulk and byte operations around the 32-byte refill boundary are never sampled.",
[S,B,"yam-core/src/util/u8x32.rs","yam-core/src/util/u8x16.rs"],[m("refill after skip",B),m("vectorised whitespace and newline search",B),m("byte-wise default methods of the Source trait",S)],
observe=["return values of the source calls"],hook="cfg(yam_sim): re-export of the buffered source")

add("C03","Documents completed before a stream fault arrive intact",
"When a multi-document stream is cut or corrupted from some byte on, every document that was already terminated before that byte (by `...` or by the `---` line of the next document) is still delivered to the consumer exactly as its writer wrote it: same structure and order, same scalar text and style, same tags, and aliases bound to the same anchored nodes. This holds for the event stream, for documents pushed to a receiver, and for the documents a tree loader had completed when the error was reported.",
["inputs","fault_sequences","crash_points"],"every stream written by a YAML writer in any mix of block, flow, quoted, literal, folded, anchored and tagged presentation; every cut point and every corruption of the tail",
"Tests compare whole well-formed literals with hand-written event lists; no test damages a stream after a valid prefix, and each covers one presentation of one document.",
[SC,P,L],[m("tokenisation of every presentation style",SC),m("event state machine",P),m("document completion in the tree loader",L)],
observe=["events up to the fault","documents held by the loader after an error"],hook=None)

add("C04","Every consumer call schedule sees the same event sequence",
"However a consumer interleaves peeking, pulling events (directly or as an iterator) and loading document by document or all at once, the concatenation of what it receives is the same sequence of events, spans and error, each event delivered exactly once and ending with a single end of stream. Peeking any number of times never changes what is delivered and always shows the event delivered next.",
["schedules","histories","inputs"],"every interleaving of peek, next_event, Iterator::next and load (single or multi) that a consumer can legally make, on every stream",
"Tests use one API at a time, from a fresh parser to the end; no test mixes peek with load or pulls after a load.",
[P],[m("one-event look-ahead slot shared by peek, next and load",P),m("stream-start and stream-end bookkeeping in load",P)],
state=[{"name":"current event slot","meaning":"event peeked but not yet delivered","where":P}],observe=["Parser::peek, next_event, Iterator::next, load"],hook=None)

add("C05","Push, pull, iterator and tree loading agree",
"On every stream, the receiver API is pushed exactly the events the pull API returns, the flat iterator yields exactly the node and document events of the first document and never yields past an error, and the loaded trees are exactly the trees those events describe, with every mapping entry and sequence item present once and in order, aliases replaced by the anchored node, and one tree per document. A stream on which pulling fails makes loading fail with the same error.",
["inputs","schedules","fault_sequences"],"every stream, intact or damaged; loading all documents at once or one at a time, over any source",
"Tests check the event list or the tree of a few literals, each through one API; nothing compares the APIs with each other, or on damaged streams.",
[P,PI,L],[m("load / load_document / load_node",P),m("flat iterator state machine",PI),m("node, key and anchor stacks of the loader",L)],
observe=["EventReceiver calls","ParserIter items","YamlLoader documents"],hook=None)

add("C06","Parser instances are isolated from each other",
"Any number of parsers, loaders and deserializers that are interleaved step by step in one process, created, dropped or abandoned half-way at any time, each produce exactly the events, trees, anchor numbers, tags and errors they produce when run alone.",
["schedules","histories"],"every interleaving of steps of concurrent instances, including drops in the middle and recreation",
"Every test runs one parser from start to end; none interleaves two.",
[P,SC,L,PI],[m("all parser state is owned by the instance",P),m("no statics or shared caches in the crate",SC)],
observe=["events of each instance"],hook=None)

add("C07","No stream fault makes the parser panic, hang or exhaust memory",
"For every stream of valid UTF-8, however it was truncated, corrupted, duplicated or reordered in transit, pulling events ends after a bounded number of steps in either end of stream or an error, without panicking; the source accesses and the memory needed stay within a fixed polynomial bound of the stream length. Loading or deserializing such a stream (absent aliases and at ordinary nesting depth) ends likewise.",
["inputs","fault_sequences"],"every valid UTF-8 stream, reached by any sequence of truncation, bit error, loss, duplication, reordering and insertion (including NUL, lone CR, tab, BOM and multi-byte characters)",
"Tests feed a few dozen fixed malformed inputs; a fault can strike at any byte of any construct.",
[SC,P,S,L],[m("scanner loops must consume input or stop",SC),m("bounds of look-ahead",S),m("parser state stack",P)],
observe=["panics, step counts, live memory"],hook=None)

add("C08","Event sequences are always well-formed",
"At every moment, whatever the stream and whatever faults it suffered, the events delivered so far form a prefix of a well-formed stream: stream start, then documents each containing exactly one node, collections properly nested and closed, mappings with complete key/value pairs, then stream end and nothing more. Anchor numbers are unique and increasing, an alias only ever refers to an anchor that appeared earlier in the same document - the last one of that name, which the parser's anchor lookup gives back - and a sequence that ends without error is complete.",
["inputs","fault_sequences","histories"],"every stream, every fault sequence, every prefix of the delivered events",
"Tests compare complete lists for valid inputs; most of their error cases do not assert what came before the error, and none covers arbitrary damage.",
[P,SC],[m("event state machine and its state stack",P),m("token queue with late insertion of key and mapping tokens",SC)],
observe=["every delivered event"],hook=None)

add("C09","A reported error is final",
"Once any consumer call on a parser has reported an error, no later call through any API delivers another event or signals a successful end of stream: peeking, pulling and loading keep reporting the same error, and the flat iterator stays ended.",
["histories","fault_sequences","schedules"],"every damaged stream, every position of the first error, every sequence of later calls",
"Tests stop at the first error; none calls the parser again.",
[P,SC,PI],[m("scanner error latch",SC),m("parser event loop",P),m("flat iterator error slot",PI)],
state=[{"name":"scanner error","meaning":"first scan error, repeated to later callers","where":SC}],observe=["calls after the first error"],hook=None)

add("C10","Completed documents are delivered without waiting for later bytes",
"A consumer on a blocking stream receives every event of a document, including its end, as soon as the line holding the `...` or `---` that terminates it has arrived, and the start of a document as soon as its `---` line has arrived: the parser never examines a byte after that line first. So a writer that sends its next document only after the previous one was acknowledged never deadlocks with the reader.",
["schedules","inputs"],"every request/response exchange of documents in every presentation, every chunking and delay of delivery",
"No test observes what the parser reads; in-memory strings cannot block.",
[SC,P],[m("amount of look-ahead taken before a token is released",SC),m("tokens peeked before an event is released",P)],
observe=["bytes examined in the source when an event is delivered"],hook=None)

add("C11","Documents are independent: restart at a boundary resumes exactly",
"A document parses to the same events, tags and aliases wherever it stands in a stream: anchors, tag handles, indentation and flow state of earlier documents never leak into later ones (tag handles only if keep_tags was asked for). So a consumer that crashes and restarts a new parser at the start of the first unprocessed document sees each remaining document exactly once and unchanged, and an alias to an anchor of an earlier document is refused.",
["crash_points","histories","inputs"],"every multi-document stream, every sequence of crashes and restarts at document boundaries, with any number of documents before",
"Multi-document tests are a handful of fixed streams read from the start by one parser.",
[P,SC],[m("per-document reset of anchors and tags",P),m("reset of indentation, keys and flow level at document markers",SC)],
state=[{"name":"anchors","meaning":"names visible to aliases","where":P},{"name":"tags","meaning":"tag handles in force","where":P}],observe=["events of restarted parsers"],hook=None)

add("C12","Marks account exactly for the bytes consumed",
"Every position the parser reports, in events and in errors, is the true byte offset in the stream with the matching line and byte column, whatever the source and its delivery: a scalar, alias, collection or document-marker event starts at the byte where its text starts, spans never end before they start, positions never go backwards from one event to the next, and at the end of the stream every byte has been accounted for. (A byte order mark before the stream counts as bytes and takes no column.)",
["inputs","schedules","fault_sequences"],"every stream with any mix of line endings, tabs, comments and multi-byte text, any source, intact or damaged",
"Tests discard spans (the event tests use the span-less receiver); drift after one construct is visible only in a later one.",
[SC,S,M],[m("mark updated separately from every source call",SC),m("byte counts returned by bulk source operations",S)],
state=[{"name":"mark","meaning":"offset, line and column of the scanner","where":SC}],observe=["spans of events, marks of errors, bytes consumed from the source"],hook=None)

add("C13","The unsafe contract between parser and source is honoured",
"On every path the parser takes, intact or damaged stream, it looks ahead only within the source's advertised buffer length and never skips past the end of the stream; every string it hands out (scalars, tags, comments) is valid UTF-8, whole characters of the stream or of an escape, never part of one.",
["inputs","fault_sequences","configurations"],"every valid UTF-8 stream under every fault, every advertised buffer length of at least 8 bytes",
"The strings are built with unchecked conversions, so a violation is silent; tests use almost only ASCII and never measure the look-ahead.",
[SC,S,B],[m("from_utf8_unchecked at the end of every scan",SC),m("peek with offset",S)],
observe=["every source call","bytes of every delivered string"],hook=None)

add("C14","Writer failures surface and never corrupt the output",
"When the text sink fails at any write (once or for good, at any byte), serializing or emitting reports the failure to its caller, has written exactly a prefix of what it writes when nothing fails, and attempts no write after the failed one. The same value written again to a healthy sink gives the same text as if nothing had happened.",
["fault_sequences","crash_points","inputs"],"every value the serializer and the emitter accept, every position of the failing write, full sinks and transient failures",
"Tests write to a String, which cannot fail.",
[SE,"yam-serde/src/escape_str.rs",EM],[m("every write result propagated",SE),m("emitter writes",EM)],
observe=["return value and the bytes accepted by the sink"],hook="cfg(yam_sim): re-export of the tree emitter")

add("C15","Deserializing a damaged stream never yields a wrong value",
"Deserializing returns a value only if the document's events, up to its end, were all delivered without error, and then it is exactly the value those events denote: no element or entry lost, duplicated, reordered or merged. For every other stream it returns an error, and it never panics. An undamaged document without aliases whose shape fits the target is deserialized, not refused.",
["inputs","fault_sequences"],"every stream under truncation, corruption and loss; self-describing targets and typed targets (sequences, maps, options, structs, tuples, enums); any source",
"Tests deserialize a few fixed valid documents; none is cut or damaged.",
[DE,PI],[m("one-event look-ahead of the deserializer",DE),m("error swallowed by the flat iterator and turned into end of input",PI)],
observe=["result of deserialization"],hook="cfg(yam_sim): constructor of the deserializer over any source")

add("C16","A receiver crash loses and duplicates nothing",
"If a receiver unwinds at any event while documents are being loaded into it, the parser remains usable: the event it crashed on counts as delivered, and every following event is delivered exactly once, in order and unchanged, to whoever continues pulling from the same parser.",
["crash_points","histories"],"every crash point (event index) in every stream, repeated crashes, continuation by pulling with or without peeking",
"No test receiver ever panics.",
[P],[m("event taken from the parser before it is pushed",P)],
observe=["events received before and after the crash"],hook=None)

add("C17","Reporting comments disturbs nothing",
"With the library's `comment` feature turned on, every consumer (pulling, peeking, receivers, trees, the flat iterator, the deserializer) gets the same events, positions, values and errors as without it, whatever the stream, its delivery and its faults. In addition each comment is delivered once, in stream order, between the events between which it stands, with its exact text from `#` to the end of the line and its exact position, and no comment of a document that was complete before a fault is missing.",
["inputs","schedules","configurations","fault_sequences"],"every stream (well-formed, truncated or corrupted), every delivery, every consumer, both builds",
"The feature is built by continuous integration, but its tests drop the comments from the compared event lists and hold comments in a few fixed places; where a comment may stand is open-ended, and no test compares the two builds.",
[SC,P,PI],[m("comments scanned beside the tokens",SC),m("comments delivered between events by position, skipped or forwarded when loading",P),m("comments skipped by the flat iterator",PI)],
observe=["events returned by the parser, comments among them"],hook=None)

add("C18","Damage that breaks the grammar is reported, never accepted",
"Whatever stands in a stream, damage that leaves it outside the grammar in one of these ways makes every consumer that reads on get an error, at the latest before the document after the damaged one begins, and is never taken for a complete stream: the stream ends inside a quoted scalar or flow collection; a bracket is wrong or one too many; text or a comment is glued to a closing quote or bracket, an opening bracket or quote to an anchor, tag or alias; two nodes stand side by side; a comma, colon or dash is lost, doubled or stands alone, an entry lacks its indicator or has that of the other kind of collection; a document marker line stands inside a quoted scalar or flow collection; an escape, tag, directive or block scalar header is malformed, a directive is repeated, misplaced or without its document; an alias names nothing or carries properties, a node has two anchors or two tags, a tag handle is undeclared; a plain scalar begins with a reserved character or has a comment line inside; an implicit key takes two lines or more than 1024 characters; a line of a quoted or block scalar stands left of where it may; a block collection begins on the line of its implicit key or of `---`; properties stand before a `-`, or on a line of their own at their parent's column; a second root node or text after `...` follows; a line stands between two indentation levels, or a tab indents a further entry, a continuation line of a scalar, a sequence that begins on the line of its parent's `-`, `?` or `:`, a mapping that begins on that of its `?` or `:`, or a node on the line below its parent\'s `-`, `?` or `:`.",
["inputs","fault_sequences"],"every well-formed stream, every place in it that offers the damage, every delivery",
"The fixed error cases are small and each show one error in one place; whether damage is noticed depends on what surrounds it (nesting, properties, pending simple keys, line breaks, windows).",
[SC,P],[m("simple keys, indentation and flow state that make misplaced tokens errors",SC),m("state machine that refuses tokens out of place",P)],
observe=["events and final error of the damaged stream"],hook=None)

add("C20","Scalars resolve to the core-schema type the text denotes",
"Resolving an untagged plain scalar or a scalar with a core-schema tag gives the YAML 1.2 core-schema value: the integer (decimal, octal, hexadecimal, with sign), float, boolean, null or string its text denotes.",
["inputs"],"every scalar text and tag","A handful of literals are sampled.",
["yam-core/src/node/scalar.rs"],[m("parse_from_cow_and_metadata","yam-core/src/node/scalar.rs")])
add("C21","Emitted trees read back as the same tree",
"Emitting any tree and loading the emitted text yields an equal tree, in every emitter configuration.",
["inputs","configurations"],"every tree, compact and multiline settings","A few literals are sampled.",
[EM],[m("need_quotes, block literals, indentation",EM)])
add("C22","Serialized strings and scalars read back as the same value",
"Text produced by the serializer for any string, number, character, boolean or option deserializes to the value that was serialized, in every formatter configuration.",
["inputs","configurations"],"every scalar value and formatter setting","Two literals are sampled.",
[SE,"yam-serde/src/escape_str.rs"],[m("quoting and line splitting",SE)])
add("C23","Vector helpers equal their scalar definition",
"Each lane-wise helper operation returns, for every lane, what the scalar operation on that lane returns.",
["inputs"],"every lane value","A few vectors are sampled.",
["yam-core/src/util/mod.rs","yam-core/src/util/u8x16.rs","yam-core/src/util/u8x32.rs"],[m("array-based lane operations","yam-core/src/util/u8x32.rs")])
add("C24","Tree accessors, equality, cloning and ownership conversion agree",
"For every tree, accessors report the variant that is stored, indexing finds the entry whose key is equal, clones and owned conversions are equal to the original, and mutation through one accessor is visible through all others.",
["inputs","histories"],"every tree and accessor","A few literals are sampled.",
["yam-core/src/node/yaml.rs","yam-core/src/node/spanned_yaml.rs","yam-core/src/node/yaml_owned.rs",M],[m("YamlDocAccess implementations","yam-core/src/node/yaml.rs")])
add("C25","Exactly the streams of the YAML 1.2 grammar are accepted",
"The parser accepts every stream the YAML 1.2.2 productions derive and rejects every other stream.",
["inputs"],"every stream","The test-suite submodule is empty here; the remaining cases are a fixed list.",
[SC,P],[m("scanner and parser",SC)])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(p,ensure_ascii=False)+'\n' for p in props))
