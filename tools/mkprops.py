#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept as a script so the wording is easy to review and edit).
import json,os
P='src/lib/xmlparse.rs'; T='src/lib/xmltok.rs'; I='src/lib/xmltok_impl.rs'; R='src/lib/xmlrole.rs'; SP='src/string_pool.rs'
out=[]
def prop(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    out.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

prop("C01","Delivery invariance: how the bytes arrive never changes what is reported",
"For every byte stream and every parser configuration, the sequence of reported events (with adjacent character-data callbacks merged), the final status and error code, and the error position are the same however the stream is cut into XML_Parse / XML_GetBuffer+XML_ParseBuffer calls: one call, one byte at a time, empty calls, over-sized buffer requests, any mixture, and with the final flag on the last data or on a separate empty call. This holds for external-entity and external-subset child parsers too, each with its own cutting. (Text that directly precedes an error may be reported or not, and junk after the document element may be reported as XML_ERROR_INVALID_TOKEN or as XML_ERROR_JUNK_AFTER_DOC_ELEMENT, depending on how far the parser could look ahead.)",
["inputs","schedules"],"all byte streams (well-formed, malformed, truncated), all parser configurations, all delivery schedules of the document and its entities",
"The suite feeds each fixed document whole and one byte at a time; it never cuts at arbitrary points, mixes the two delivery APIs, or does so around entities, suspension and buffer growth, where the partial-token and buffer-compaction code runs.",
[P,I,T],[("leftover bytes carried between calls","XML_ParserStruct::parse / getBuffer / parseBuffer in "+P),("PARTIAL / PARTIAL_CHAR tokens","scan functions in "+I),("names saved when the buffer moves","storeRawNames in "+P)],
["callbacks","return value of XML_Parse/XML_ParseBuffer","XML_GetErrorCode","XML_GetCurrentByteIndex"],
[("m_buffer, m_bufferStart, m_bufferEnd","undelivered tail of the input",P),("m_parseEndByteIndex","stream offset of the end of the delivered input",P)])

prop("C02","Suspending and resuming at any callback loses, repeats and changes nothing",
"If any handler suspends the parser with XML_StopParser(resumable) at any callback, any number of times, and the application later calls XML_ResumeParser, the complete sequence of events, the final status, error code and error position equal those of the uninterrupted run. While suspended the parser delivers no event except those the documentation allows to trail the suspending callback, and it reports XML_STATUS_SUSPENDED and the SUSPENDED parsing state.",
["schedules","inputs","histories"],"all sets of suspension points over the callbacks of a run, all streams, all delivery schedules around them, including several suspensions in one buffer and suspension inside entities, CDATA, prolog, child parsers and the last callback",
"The suite suspends at one hand-picked callback of a few fixed documents and mostly never resumes; the parse-position bookkeeping that a second suspension, a suspension followed by more input, or one inside an entity depends on is never exercised.",
[P],[("stop / resume","stopParser, resumeParser in "+P),("processors that return at the event pointer when SUSPENDED","doContent, doProlog, doCdataSection, epilogProcessor, internalEntityProcessor in "+P)],
["callbacks","return values of XML_Parse/XML_ParseBuffer/XML_ResumeParser","XML_GetParsingStatus"],
[("m_parsingStatus","INITIALIZED/PARSING/SUSPENDED/FINISHED",P),("m_openInternalEntities","where to continue in suspended internal entities",P)])

prop("C03","Stopping is prompt and final, and misuse is answered by its documented error",
"After XML_StopParser(non-resumable) from any callback the parse call returns XML_STATUS_ERROR with XML_ERROR_ABORTED, delivers no further event except those the documentation allows to trail the stopping callback, and the events delivered are a prefix of the uninterrupted run (unless the token at hand is itself in error, which may then be reported instead). In every parser state each API call either does what is documented or is refused with its documented result (parse while suspended or finished, resume when not suspended, stop when already suspended or finished, encoding, parameter-entity or foreign-DTD change after start, buffer requests while suspended or finished, null or negative arguments), and a refused call has no effect on the rest of the parse.",
["histories","schedules"],"all interleavings of API calls (legal and illegal) with deliveries, and with callbacks, for all streams",
"Tests issue each illegal call once from one state of one document; they never check that the parse goes on undisturbed afterwards, nor every state.",
[P],[("state checks on entry","parse, parseBuffer, getBuffer, stopParser, resumeParser, setEncoding, XML_UseForeignDTD, XML_SetParamEntityParsing in "+P),("errorProcessor after a fatal error","errorProcessor in "+P)],
["return values","XML_GetErrorCode","XML_GetParsingStatus","callbacks"],
[("m_parsingStatus","where in its life the parser is",P)])

prop("C04","Reported positions always describe the input",
"At every callback and after every call, XML_GetCurrentByteIndex/ByteCount delimit the bytes of the delivered stream that the current event came from, XML_GetCurrentLineNumber/ColumnNumber equal the line and column that counting line ends (CR, LF, CRLF) and characters up to that byte offset gives, and XML_GetInputContext, when it returns a buffer, returns bytes equal to the stream around that offset. They never depend on delivery schedule, suspension or when or how often they are queried, and they never crash the process.",
["inputs","schedules","histories"],"all streams, delivery schedules and suspension points; all callbacks and all instants between calls at which the positions are queried",
"Tests query the position in a handful of documents, at one point, fed in one piece; line and column are computed incrementally and lazily, so every query order and buffer move is a different computation.",
[P,T,I],[("lazy position update","XML_GetCurrentLineNumber, XML_GetCurrentColumnNumber, updatePosition in "+P+" and "+I),("context window kept when the buffer is compacted (XML_CONTEXT_BYTES)","getBuffer in "+P)],
["XML_GetCurrentByteIndex","XML_GetCurrentByteCount","XML_GetCurrentLineNumber","XML_GetCurrentColumnNumber","XML_GetInputContext"],
[("m_eventPtr, m_eventEndPtr","extent of the current event",P),("m_position, m_positionIdx","position computed so far and up to where",P)])

prop("C05","Allocation failure at any point is contained",
"If any memory allocation fails, at any point of the life of a parser (creation, child creation, encoding or base setup, parsing, suspension, resumption, reset), the call in progress reports failure (null result, XML_STATUS_ERROR with XML_ERROR_NO_MEMORY, or the documented refusal) and the process neither aborts nor touches invalid memory. The events delivered before the failure are a prefix of those of the failure-free run, and afterwards the parser can still be queried, reset and reused, and freed without leaking.",
["fault_sequences","inputs"],"every index of the allocation that fails (once, or all from then on), for all streams, schedules and child parsers",
"The port drops the allocator-failure tests of the original suite (no custom memory suite), so no allocation ever fails in a test.",
[P,SP,'src/fallible_rc.rs'],[("fallible allocation (try_reserve, FallibleBox, TryHashMap, fallible Rc)",P+", src/fallible_rc.rs"),("string pool growth",SP)],
["return values","XML_GetErrorCode","process exit","live allocations after XML_ParserFree"],hook=None)

prop("C06","Every allocation is freed exactly once and never used after",
"Whatever the input and whenever the application suspends, aborts, resets or frees a parser (fresh, mid-token, mid-entity, suspended, failed, finished; children before or after the parent's parse call), once every parser created is freed and every content model handed out is released, no allocation made by the library remains, none is freed twice, and no freed or out-of-bounds memory is read or written. No input and no legal sequence of calls makes the library panic, abort, or run without end.",
["histories","inputs","schedules"],"all streams, all histories of create / parse / suspend / resume / reset / create-child / free, with a freed or moved block made inaccessible at once",
"Tests run each scenario once under the ordinary allocator, where a dangling read usually sees the old bytes; the lifetime of tags, bindings, entities and pools across calls depends on the history.",
[P,SP],[("Drop for XML_ParserStruct, binding free lists",P),("DTD shared by parent and child parsers (Rc<DTD>)",P),("string pool blocks",SP)],
["process exit","allocator registry"],
[("m_tagStack, m_freeTagList, m_freeBindingList, m_inheritedBindings","element and namespace-binding records",P)])

prop("C07","A reset parser is indistinguishable from a new one",
"After XML_ParserReset returns true, at any moment it is permitted (before, between or after parse calls, after an error, an abort, a truncated document or a memory failure, with internal entities open), parsing a second stream with freshly set handlers yields exactly the results a newly created parser with the same encoding and separator gives; settings documented to survive (unknown-encoding handler, namespace-triplet choice, parameter-entity setting as documented) survive and nothing else does. XML_ParserReset refuses on child parsers and leaves them untouched.",
["histories","inputs"],"all pairs (first history, second stream), with the first cut off anywhere",
"Tests reset after two fixed documents; what leaks from one document into the next (DTD, tags, bindings, encoding, position, suspended entities) depends on where the first one stopped.",
[P],[("reset / init","XML_ParserStruct::reset, init, DTD::reset in "+P)],["callbacks","return values","positions"],
[("m_dtd, m_tagStack, m_openInternalEntities, m_encoding","state that must not survive",P)])

prop("C08","Parsers are independent of each other and of hash randomness",
"Any number of parsers, with their child entity parsers, whose calls are interleaved in any order on any threads (each parser used by one thread at a time), including parsing with one from inside a callback of another, each produce exactly the results they produce alone. No result depends on the process's hash randomness, on addresses handed out by the allocator, or on the content of freshly allocated memory.",
["schedules","histories"],"all interleavings at API-call and callback granularity of several parsers over all streams; all hash seeds, allocator layouts and fill patterns",
"Each test uses a single parser at a time and whatever hash seed and heap layout the process has.",
[P,'src/lib/xmlrole.rs',T],[("no global mutable state; per-parser tables",P),("hash tables never iterated to produce events",P)],["callbacks","return values"],
[("HashSeed of each table","per-process random keys",P)])

prop("C09","Event stream and verdict are those of the reference XML parser",
"For every byte stream, intact or corrupted (truncated, bits flipped, bytes dropped, duplicated or inserted), well-formed documents are accepted with the events, names, attribute lists and text that libexpat reports for the same handlers, and streams that are not well-formed are rejected with libexpat's error code, after the same events. A malformed stream is never reported as success.",
["inputs","fault_sequences"],"all byte streams and corruptions of them, all handler subsets, delivered under arbitrary schedules",
"Tests compare a few hundred fixed documents against constants; the tokenizer, role automaton and content code have many more states than that.",
[P,I,T,R],[("tokenizer",I+", "+T),("prolog role automaton",R),("content and prolog processing","doContent, doProlog in "+P)],["callbacks","XML_GetErrorCode","return values"])

prop("C10","Document encoding never shows in what is reported",
"The same document delivered as UTF-8, UTF-16LE, UTF-16BE, ISO-8859-1, US-ASCII or an application-supplied single- or multi-byte encoding (declared in the document, by byte-order mark, or by XML_SetEncoding) produces the same events and verdict, whatever the delivery schedule, as far as the encoding can express its characters. Malformed byte sequences of the encoding are rejected wherever they occur and however they are split between calls; the unknown-encoding handler's release function is called exactly once for each handler call that supplied it.",
["inputs","schedules","configurations"],"all documents, all encodings and ways of selecting them, all split points inside multi-byte characters, all moments of parser release",
"Tests use a few short documents per encoding, and hardly any in which a character is split, a conversion buffer fills up at a surrogate or multi-byte boundary, or the parser is freed or reset while the encoding is live.",
[T,I,P],[("encoding detection","InitEncoding in "+T),("conversion with bounded output","utf8_convert / utf16_convert and friends in "+T),("unknown encodings","handleUnknownEncoding in "+P+", initUnknownEncoding in "+T)],["callbacks","return values","encoding release callback"])

prop("C11","Namespace names, prefixes and declaration scopes are right",
"With namespace processing on, every element and attribute name is reported expanded with the URI bound to its prefix at that point (optionally with the prefix when triplets are requested), unprefixed attributes are not expanded, start- and end-namespace-declaration callbacks bracket exactly the elements that declare them with ends matching starts, and unbound prefixes, reserved-prefix misuse and attributes with equal expanded names are rejected. This holds across suspension, buffer moves, defaulted declarations, entities and external-entity child parsers which inherit the bindings in scope.",
["inputs","schedules","histories"],"all documents over arbitrary prefix/URI reuse and nesting, all schedules and suspension points, child parsers included",
"Tests cover one prefix shape each; bindings are recycled through free lists and extended in place, so results depend on the history of declarations in the parser.",
[P],[("binding stack and free list","addBinding, freeBindings, storeAtts in "+P),("context string passed to child parsers","getContext, setContext in "+P)],["callbacks","XML_GetErrorCode"],
[("DTD::prefixes, Binding","prefix to URI bindings in force",P)])

prop("C12","Entities, defaults and DTD declarations take full effect however they arrive",
"General and parameter entities, internal or external, are expanded to their declared replacement text, attribute values are normalized and defaulted as the DTD seen so far says, and element, attribute-list, entity, notation and doctype declarations are reported in order with their complete content (content models included), under every parameter-entity setting, wherever the declarations live (internal subset, external subset, parameter entities, foreign DTD). Recursive references, references to undeclared entities, and a child parser's failure are reported as the documented error in the parent or as a skipped entity, never ignored and never expanded without bound.",
["inputs","schedules","configurations","histories"],"all DTDs and reference structures, all parameter-entity settings, all schedules of the document and of each external entity, with child parsers finished inside the handler or later",
"Tests use a fixed DTD each, with external entities delivered whole; replacement text is stored in pools that later declarations and child parsers move, extend or share.",
[P,R],[("entity tables, pools","DTD, storeEntityValue, appendAttributeValue, processInternalEntity in "+P),("content-model scaffold","build_model in "+P),("external entities","XML_ExternalEntityParserCreate, externalParEntProcessor, entityValueProcessor in "+P)],["callbacks","XML_GetErrorCode"],
[("DTD","declarations collected so far, shared with parameter-entity children",P)])

prop("C13","The default handler conserves the document's bytes",
"With only a default handler set, the concatenation of what it receives is the document itself (re-encoded to the output encoding), byte for byte, over all events up to the end or the error, under every delivery schedule, suspension and reset; with other handlers set, each construct goes either to its own handler or to the default handler, never to both and never to neither. XML_DefaultCurrent from inside a handler passes exactly the current event's markup to the default handler.",
["inputs","schedules","histories"],"all documents, delivery schedules, handler subsets changed at any callback, and points at which XML_DefaultCurrent is called",
"Tests check the default handler on a few fixed documents in one piece; conversion goes through bounded buffers and partial tokens.",
[P],[("reportDefault, XML_DefaultCurrent",P),("handler presence tests before each report","doContent, doProlog in "+P)],["callbacks"])

prop("C14","A cut-off stream yields a prefix of the whole and never success",
"For every document and every cut point, the events delivered from the first n bytes are a prefix of the events of the complete document (the last text possibly cut short; where the cut is declared the end of input, a declaration it ends in may be reported as if complete before the error), and each event depends only on bytes delivered before it. Declaring the cut point to be the end of input is reported as an error unless the n bytes alone form a complete document, and never as success with missing content.",
["crash_points","inputs","schedules"],"every cut point of every stream, including inside multi-byte characters, tokens, entities and external entities, for every delivery schedule",
"Tests truncate a few fixed documents at one place each.",
[P,I,R],[("final-buffer handling of partial tokens","haveMore/isFinal handling in doContent, doProlog, epilogProcessor and the external-entity processors in "+P)],["callbacks","return values","XML_GetErrorCode"])

prop("C15","The UTF-16 build reports the same document as the UTF-8 build",
"A library built with the unicode feature (16-bit XML_Char) reports, for every stream, configuration and schedule, the same events, statuses, error codes and positions as the default build, with every string the UTF-16 form of the UTF-8 one, including characters outside the BMP and across conversion-buffer boundaries.",
["inputs","configurations","schedules"],"all streams, handler configurations and schedules, both builds",
"The test suite runs in one build configuration; nothing compares the two.",
[P,T,'src/expat_external_h.rs','Cargo.toml'],[("utf16_convert paths and MUST_CONVERT","xmltok.rs, reportDefault/doContent in "+P)],["callbacks","return values","positions"])

prop("C16","xmlwf's verdict is right under every I/O outcome",
"For a document or external entity that cannot be opened, examined or read completely (missing, permission, I/O error, interrupted, non-regular, shrinking, directory) or whose memory cannot be had, xmlwf exits with a failing status and a message rather than reporting the document well-formed; for files read completely it exits 0 exactly when the document (with its external entities) is well-formed, no matter how many bytes each read returns, and with several files it processes them in order up to the first that fails, names that one in its message with the line and column of the error, and exits with a failing status. File names may be any bytes the operating system allows.",
["fault_sequences","inputs","schedules"],"all sequences of short reads and I/O errors at every system call, all option combinations, all documents",
"The xmlwf tests run on healthy local files only; no read is ever short and none fails.",
['src/xmlwf/xmlfile.rs','src/xmlwf/readfilemap.rs','src/xmlwf/xmlwf.rs'],[("processStream read loop","src/xmlwf/xmlfile.rs"),("filemap whole-file read","src/xmlwf/readfilemap.rs"),("exit code","main in src/xmlwf/xmlwf.rs")],["exit status","stdout/stderr"])

prop("C17","xmlwf's output is a faithful canonical form, independent of I/O mode",
"With an output directory, for every well-formed document xmlwf writes the canonical form (or, with -m, the meta form; with -c, the document's own text in UTF-8) of the parsed content, and that output is the same whether the file is mapped or streamed (-r), however the reads are split, and re-parsing canonical output yields the same elements, attributes, text and processing instructions and is a fixed point. For a document that is not well-formed no output file is left behind, an output that could not be written completely makes xmlwf fail, and no run writes outside the output directory.",
["inputs","schedules","fault_sequences"],"all documents, option sets and read schedules",
"Tests compare a fixed corpus with stored outputs for whole-file reads.",
['src/xmlwf/xmlwf.rs','src/xmlwf/xmlfile.rs'],[("handlers writing canonical form","startElement, characterData, endDoctypeDecl, metaStartElement... in src/xmlwf/xmlwf.rs"),("output file removed on failure","main in src/xmlwf/xmlwf.rs")],["output files","exit status"])

prop("C21","xmlwf gives back what it takes and touches only memory that is its own",
"On every run of xmlwf, whatever the documents, options, number of files and external entities, read splitting, and I/O or memory failures: it reads and writes only memory it owns and frees nothing twice, it closes each file descriptor and output stream it opened exactly once before it ends with a verdict (status 0 or 2), and when it succeeds no memory it took while working on the files (buffers, resolved names, notation lists, parsers of documents and entities) is left allocated.",
["fault_sequences","inputs","schedules"],"all documents, option sets, numbers of files and entities, read schedules, and sequences of I/O and allocation failures",
"The xmlwf tests look at output and exit status only; a descriptor or buffer lost per file or entity, or a buffer a byte too small, changes neither.",
['src/xmlwf/xmlfile.rs','src/xmlwf/readfilemap.rs','src/xmlwf/xmlwf.rs'],[("close and free on every path of filemap","src/xmlwf/readfilemap.rs"),("resolveSystemId buffer, external entity parsers","src/xmlwf/xmlfile.rs"),("notation list, output names, parsers","src/xmlwf/xmlwf.rs")],["memory and descriptors held at exit","memory errors"])

# Properties that are real but that this family of technique cannot honestly decide here
prop("C20","Memory held is bounded by what is open, not by how much has passed",
"A parser that is fed an ever longer stream of markup of a repeating kind (elements, attributes, namespace declarations, entity references, processing instructions, comments, CDATA sections, text, skipped references), or that is reset and fed documents again and again, holds no more memory after many repetitions than after a few: names, bindings, tags, entity records, attribute tables and converted text are reused or released once the markup they belong to is closed. This holds under every delivery schedule, with suspensions, and for the memory of child parsers once they are freed.",
["histories","inputs","schedules"],"all streams that repeat units of markup, all delivery schedules and suspension points, all numbers of repetitions and resets",
"A test parses a small document once; holding on to a few bytes per element or per comment shows only as growth over a long history, and only for the kind of markup that leaks.",
[P,SP],[("temporary pools cleared after each use",P+" (m_tempPool, m_temp2Pool)"),("free lists of tags, bindings and open entities",P),("DTD pool: strings discarded unless newly declared",P+", "+SP)],
["bytes live in the allocator at each repetition"],
[("m_freeTagList, m_freeBindingList, m_freeInternalEntities","records waiting for reuse",P)])

prop("C18","Constant queries report the truth about the library",
"XML_ExpatVersion, XML_ExpatVersionInfo, XML_GetFeatureList and XML_ErrorString return the fixed values documented for this build, for every argument.",
["inputs"],"all error codes","Pure functions of their argument with no schedule, fault or history.",
[P],[("constant tables",P)],["return values"])
prop("C19","Parsing time stays proportional to the input under hostile keys",
"Hash-table lookups keyed by document-controlled names stay near constant time for adversarial names because the hash is keyed with process randomness.",
["inputs"],"all adversarial name sets","Performance is not observable in the tests.",
[P],[("std HashMap with RandomState",P)],["run time"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for o in out: f.write(json.dumps(o)+"\n")
for o in out:
    assert len(o['title'])<=80,(o['id'],len(o['title']))
    assert o['statement'].count('. ')<=3
print(len(out))
