import json
P=[]
def p(id,title,st,over,qt,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
TR="src/matcher/trie/node/mod.rs";LN="src/matcher/trie/node/literal.rs";PN="src/matcher/trie/node/parser.rs";TI="src/matcher/trie/node/interface.rs"
SA="src/matcher/suffix_array/impls.rs";SI="src/matcher/suffix_array/interface.rs";RES="src/matcher/result.rs"
PS="src/matcher/pattern_source/mod.rs";PE="src/matcher/pattern_source/error.rs";PL="src/matcher/pattern_loader.rs"
FD="src/matcher/pattern/file/deser.rs";FI="src/matcher/pattern/file/iter.rs";PD="src/matcher/pattern/deser.rs";PP="src/matcher/pattern/pattern.rs"
TM="src/matcher/pattern/testmessage/message.rs";TE="src/matcher/pattern/testmessage/error.rs";TD="src/matcher/pattern/testmessage/deser.rs"
SET="src/parsers/set.rs";INT="src/parsers/int.rs";GR="src/parsers/greedy.rs";LC="src/parsers/has_length_constraint.rs";GP="src/grammar/parser/pattern_parser.rs"
CPX="src/utils/common_prefix.rs";SV="src/utils/sortedvec.rs"
match=[TR,LN,PN,TI,SA,SI,RES,SET,INT,GR,LC,CPX,SV]
state=[("literal_children / parser_children","the trie: what was added so far, split into shared prefixes",TR),("literal_entries / parser_entries","the suffix array: sorted literals and parsers in order of addition",SA)]
p("C01","Every reported match is a true match of a pattern in the matcher",
 "Whatever history of additions, copies, loads, interrupted calls and other threads' work a matcher has been through, a match it reports names a pattern that was put into this matcher and has not been replaced by an identical one since. That pattern on its own consumes the whole message, and the reported captures are exactly the pieces its named parsers take from it: nothing missing, nothing extra, nothing altered.",
 ["histories","inputs","schedules","fault_sequences"],"all histories of adding (any order, overlapping prefixes, any Unicode), cloning, loading, building and parsing over both matchers, with short and interrupted reads, cancelled calls and preemption at any intercepted point",
 "The unit tests parse a dozen ASCII messages with matchers of two to four patterns added in one order; unsoundness shows only for particular overlaps of prefixes and orders of addition.",
 match,[("walk down the literals, then try the parsers","SuffixTree::parse in "+TR),("prefix entries, longest first, then parsers","SuffixTable::parse in "+SA),("captures pushed on the way back","MatchResult::insert in "+RES)],
 ["Matcher::parse","MatchResult::pattern","MatchResult::values"],state)
p("C02","No added pattern is ever lost",
 "If any pattern currently held by a matcher would match a message on its own, the matcher reports a match for that message, whatever else was added before or after it and in whatever order. A well-formed pattern is never refused.",
 ["histories","inputs","schedules","fault_sequences"],"all orders of addition of any sets of patterns sharing prefixes, parsers or whole beginnings, through every way of putting patterns in (direct addition, pattern source, file), both matchers",
 "The tests add at most four patterns in a fixed order and never patterns that share their first parser, split a literal in the middle of a character or end where another continues; the number of shapes is unbounded.",
 match+[PP,GP],[("keep the subtree of an existing entry","Entry::insert in "+TI+" and "+SI),("split a literal at the common prefix","LiteralNode::split in "+LN),("fall back to parsers on the way up","SuffixTree::parse in "+TR)],
 ["Matcher::add_pattern","Matcher::parse"],state)
p("C03","Among several matching patterns the documented one wins",
 "Where several patterns written in the pattern language match a message, the choice depends only on them and their order of addition: at the first place where they differ, a literal beats a parser, of two different parsers the one that was added first (in that place) is tried first, and a pattern ending with the message beats one going on with a parser that matches nothing. Of two patterns with identical content the one added last replaces the other.",
 ["histories","inputs","schedules","fault_sequences"],"all sets of patterns, of which at least two match the message, in all orders of addition, both matchers, with the additions spread over loads, clones and interleaved parses",
 "Tests cover one precedence pair (a full literal against a parser) in one order; precedence depends on how prefixes were split by the whole history.",
 match,[("literals first, parsers in order of insertion","SuffixTree::parse, parse_with_parsers in "+TR),("same order for the suffix array","SuffixTable::parse_with_parsers in "+SA),("equal parsers share one entry","hash_os comparison in lookup_parser/insert_parser")],
 ["Matcher::parse","MatchResult::pattern"],state)
p("C04","A cloned matcher is equal to and independent of its original",
 "A copy of a matcher (through either way of copying) answers every message exactly as the original did at that moment. Afterwards additions to, uses of, or the destruction of one of them never change the answers of the other.",
 ["histories","schedules","fault_sequences"],"all interleavings of copying, adding, parsing (also cancelled half-way) and dropping over families of copies of copies",
 "No test clones a matcher and goes on using both; sharing would show only after a divergent history.",
 [TR,PN,LN,SA,"src/matcher/trie/matcher.rs",SET,INT,GR,PP],[("deep clone of nodes and boxed parsers","Clone for ParserNode/ParserE, Parser::boxed_clone"),("Matcher::boxed_clone","src/matcher/trie/matcher.rs, "+SA)],
 ["Clone::clone","Matcher::boxed_clone","Matcher::parse"])
p("C05","Parsing never changes a matcher and is repeatable",
 "Asking a matcher about a message any number of times, in any order, between any other calls, at any log level, and also after parses that were abandoned half-way by a failing user-supplied parser or log sink, always gives the same complete answer until a pattern is added to it. Adding a pattern changes an answer only in favour of the new pattern.",
 ["histories","schedules","fault_sequences"],"all sequences of parses, cancellations at any callback or log record, changes of the log level and unrelated work between two identical parses",
 "Tests parse each message once; caching, self-adjusting or half-undone state would need a particular earlier message or cancellation.",
 [TR,SA,PN,RES],[("parse takes &self and keeps no cache","Matcher::parse in src/matcher/"),("results borrow from the matcher","MatchResult in "+RES)],
 ["Matcher::parse"])
p("C06","Loading a file yields its complete content or an error",
 "A pattern file load succeeds only with exactly the patterns the file holds, all of them, in the order the documented iteration gives; short reads and interrupted system calls never change the outcome. If opening or any read fails, or what was read is not a complete document, the load reports an error, and an I/O failure is reported as an I/O error, never as an empty or shortened success.",
 ["fault_sequences","crash_points","inputs","schedules"],"all documents in both formats, all read schedules (sizes, interruptions, hard errors, premature ends at any byte), torn and concurrently rewritten files, missing files and directories",
 "Tests load four small fixture files from a healthy file system; an error after k bytes cannot be produced there.",
 [PL,FD,FI,PD,PE],[("read_to_string with its error passed on","PatternLoader::read in "+PL),("whole-document deserialisation","PatternLoader::load_file in "+PL)],
 ["PatternLoader::load_file","PatternLoader::from_file","PatternLoader::from_file_ignore_errors"])
p("C07","A strict build is all or nothing and stops at the first problem",
 "A strict build from a pattern source or file succeeds exactly when every item is readable and every test message passes at the moment its pattern is added, and the matcher then holds all the patterns. Otherwise it fails with the first problem, named with the pattern or source error it belongs to, takes no further item from the source, and hands out no matcher.",
 ["fault_sequences","histories","inputs"],"all sequences of good items, failing items and items with failing test messages, with the failure at any position, from in-memory sources and files read under benign I/O faults",
 "Tests try one failing item in one position and cannot see how far the source was consumed.",
 [PS,PE,PL,TM,TE,FI],[("try! on each item and check_pattern","FromPatternSource::from_source in "+PS)],
 ["FromPatternSource::from_source","PatternLoader::from_file"])
p("C08","A lenient build keeps every readable pattern and reports every problem",
 "A lenient build consumes its whole source, never fails because of an item, and the matcher holds every readable pattern, including those whose test messages fail. Each unreadable item and each failing pattern is reported by exactly one error-level log record that identifies it, in order, and nothing else is logged at that level.",
 ["fault_sequences","histories","inputs"],"all sequences mixing good items, failing items and failing test messages, in any order and number",
 "The tests use one fixture with one bad test message and look at neither the log nor the later items.",
 [PS,PE,PL,TE],[("error! and continue","FromPatternSource::from_source_ignore_errors in "+PS),("Display of errors","TestPatternError/BuildError formatting in "+TE)],
 ["FromPatternSource::from_source_ignore_errors","PatternLoader::from_file_ignore_errors","error-level log records"])
p("C09","Test messages pass exactly when the match is right",
 "While patterns are being built in, a test message is accepted if and only if the message is matched by its own pattern among those present, every value it expects is the one captured or supplied by the pattern, and the tags it expects are the pattern's. A rejection names the pattern and the real discrepancy.",
 ["histories","inputs","fault_sequences"],"all patterns, earlier additions and test messages, with each kind of discrepancy present or absent, in strict and lenient builds and from sources and files",
 "The tests give each kind of rejection one example with one pattern in the matcher.",
 [PS,TM,TE,TD],[("TestMessage::test_result and friends",TM),("check_pattern after addition",PS)],
 ["FromPatternSource::from_source","BuildError::TestMessage"])
p("C10","No input crashes or hangs the library",
 "No message, pattern text or stored file content, however malformed, damaged or long, makes a call panic, overflow the stack, abort or fail to return: the outcome is a match, no match or an error.",
 ["inputs","fault_sequences","crash_points"],"all messages and pattern texts (any Unicode, boundaries inside multibyte characters, huge numbers), all damaged files (torn, bit-flipped, zeroed, missing or repeated ranges), both matchers",
 "Tests use well-formed ASCII and a handful of syntax errors.",
 [TR,LN,SA,SET,GP,"src/grammar/mod.rs",PD,FD,PL,CPX],[("slicing at character boundaries",CPX),("errors instead of unwrap in the grammar",GP)],
 ["Matcher::parse","grammar::parser::pattern","PatternLoader::load_file","Pattern::from_json"])
p("C11","A failed or interrupted load leaves nothing behind and the next succeeds",
 "After loads and builds that failed, were cancelled half-way or met a torn or vanished file, every matcher that existed before answers as before, no file stays open, and as soon as the file is whole and the faults have stopped the very next load succeeds with the complete content in a bounded number of reads.",
 ["fault_sequences","crash_points","histories"],"all sequences of failing, interrupted and repeated loads over files that are torn by crashes and repaired, followed by a fault-free load",
 "No test loads twice, or at all after a failure.",
 [PL,PS,FI],[("load has no state outside its locals",PL),("matcher built aside and returned only on success",PS)],
 ["PatternLoader::from_file","open descriptors of the process","Matcher::parse"])
p("C12","Both matcher implementations give identical answers",
 "A trie and a suffix array that were built by the same history of patterns written in the pattern language give the same answer, down to the captures and metadata, to every message.",
 ["histories","inputs","schedules","fault_sequences"],"all common histories of additions, loads, builds and clones, and all messages",
 "The tests of the two matchers are separate and use different data.",
 match,[("the same token walk in two data structures",TR+", "+SA)],["Matcher::parse of both matchers"],state)
p("C13","JSON and YAML files with the same content load the same",
 "Two files that hold the same patterns, one in each format, in whatever layout, key order, quoting or escaping and under whatever read schedule, load to the same patterns with the same metadata and test messages, and to matchers giving the same answers.",
 ["inputs","fault_sequences"],"all documents expressible in both formats, all layouts of each, and independent read schedules for the two",
 "The tests load a few fixtures in each format, read in one piece.",
 [PL,FD,PD,TD],[("one Deserialize implementation for both",PD)],["PatternLoader::load_file","PatternLoader::from_file"])
p("C14","A match returns the pattern's metadata exactly as supplied",
 "The id, name, tags and additional values seen through a match are byte for byte those given when the pattern was put in, whether directly, from a document or from a file read under interruptions, after any later additions, splits and copies; what was not given is absent, not empty.",
 ["histories","inputs","fault_sequences"],"all metadata (Unicode, quotes, control characters, empty and missing) over all ways of putting a pattern in and all later histories",
 "The tests compare metadata for one or two patterns directly after decoding.",
 [PP,PD,RES,TR,SA],[("the pattern travels whole to its leaf","Entry::set_pattern; pop_first_token only removes tokens")],["MatchResult::pattern","Pattern::{name,uuid,tags,values}"])
p("C15","Threads using separate matchers do not influence each other",
 "However the work of several threads is interleaved, each thread's loads, builds, additions and parses on its own matchers have exactly the outcome they have when that thread runs alone.",
 ["schedules","fault_sequences","histories"],"all interleavings at allocations, log records, system calls and callbacks of two to four threads doing any mix of operations, also with I/O faults",
 "Every test is single-threaded with respect to the library.",
 ["src/lib.rs",PL,PS,TR,SA,GP],[("no shared mutable state","the crate has no statics or thread locals of its own")],["every public call, per thread"])
p("C16","Random pattern ids are valid and never repeat",
 "Every pattern created with a random id gets a well-formed version 4 id, different from every other one handed out in any thread, also right after restarts and when the entropy source is interrupted or delivers in pieces.",
 ["schedules","fault_sequences","histories"],"all interleavings of threads creating patterns, with interrupted and short entropy reads and restarts between them",
 "No test looks at the id.",
 [PP],[("Uuid::new_v4","Pattern::with_random_uuid in "+PP)],["Pattern::with_random_uuid","Pattern::uuid"])
p("C17","Repeated work does not accumulate memory, files or other resources",
 "Once everything obtained from the library is dropped again, the process holds what it held before, however often parses, additions, copies, builds and loads were made, and also when they failed, were cancelled half-way or met damaged files. What is set up once may stay, but neither the memory nor the open files of a process that goes on working keep growing, and no files are left on the disk.",
 ["histories","fault_sequences","schedules"],"all workloads repeated any number of times in one process, including failing and cancelled ones, the same work again and again as well as ever different work",
 "The tests neither count allocations nor do anything twice; growth by a few bytes per call shows only after very many calls, or only on error and cancellation paths.",
 [TR,SA,PS,PL,PP,PD,RES],[("plain ownership: every node, pattern and buffer is dropped with its matcher","src/matcher/"),("the file is closed when it goes out of scope","PatternLoader::read in "+PL)],
 ["every public call, and dropping what it returned"])
p("C18","Answers do not depend on time, place, randomness or environment",
 "The outcome of every call is decided by its arguments, the history of the matchers involved, the content of the files read and the log level alone. The same history gives the same outcomes at any time of day and speed, at any memory addresses, in any process with any id, environment and home directory, and whatever numbers the entropy source delivers; only ids asked to be random differ.",
 ["configurations","histories","fault_sequences"],"all histories with their faults, executed again under any clock (also set back or standing still), memory layout, process id, entropy and environment variables",
 "A test process runs once, at one time, with one layout and environment; an order taken from addresses or from randomly keyed tables, an expiring answer or a variable consulted somewhere changes results only elsewhere.",
 [TR,SA,SV,RES,SET,PS,PL],[("ordered containers only, a keyless hash identifies parsers","SortedVec, BTreeMap, SipHasher::new() in "+SET),("no clock, environment or address is consulted","src/")],
 ["every public call, in several executions"])
p("N01","A pattern text compiles to the tokens it describes",
 "For every pattern text the compiled pattern consists of exactly the literals and parsers written, in order, with their names and limits, and every ill-formed text is rejected.",
 ["inputs"],"all pattern texts","Tests compile some twenty texts.",
 [GP,"src/grammar/parser/pattern.rustpeg","src/grammar/mod.rs"],[("generated PEG parser",GP)],["grammar::parser::pattern"])
p("N02","Prefix and sorted-vector utilities are correct for all inputs",
 "The common prefix of two strings is the longest one ending at a character boundary of both, and the sorted vector stays sorted after every insertion.",
 ["inputs"],"all pairs of strings, all insertion sequences","Tests use a few ASCII strings.",
 [CPX,SV],[("byte comparison with boundary tracking",CPX)],["utils (internal)"])
p("N03","The syslog-ng pattern database converter preserves patterns",
 "Converting a syslog-ng pattern database yields a pattern file with the same rules.",
 ["inputs"],"all pattern databases","There are no tests of the converter.",
 ["utils/"],[("conversion script","utils/")],["converter output"])
p("N04","Parsers are identified by their kind, name and parameters",
 "Two parsers are treated as the same exactly when their kind, name and all parameters are equal.",
 ["inputs"],"all pairs of parsers","Tests compare a few pairs.",
 [SET,INT,GR],[("ObjectSafeHash",SET)],["ObjectSafeHash::hash_os"])
open('/verif/properties.jsonl','w').write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
for x in P: assert len(x['title'])<=80,(x['id'],len(x['title']))
