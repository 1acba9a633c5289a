#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as a script so the long texts stay readable)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
M="lsp-proxy/src/main.rs"; L="lsp-proxy/src/lib.rs"
HOV="lsp-proxy/src/hover_processor.rs"; INL="lsp-proxy/src/inlay_hint_processor.rs"; QD="lsp-proxy/src/quantity_detection.rs"
FMT="lsp-proxy/src/unit_formatter.rs"; ST="lsp-proxy/src/lsp_structures.rs"
PM="whippyunits-pretty/src/main.rs"; PP="whippyunits-pretty/src/rustc_pretty.rs"
SER="src/serialization.rs"
NOT_MAIN="The existing tests call the message rewriter with one complete string at a time; no test ever runs the proxy program, a pipe, a child process or a schedule."

# ---------------------------------------------------------------- LSP proxy session
p("L01","Editor-to-server messages are relayed exactly, in order",
 "Every complete message the editor sends through the language-server proxy reaches the language server exactly once, in the order sent, with its body byte-for-byte unchanged. This holds however the byte streams are cut into reads and writes, however slowly the server reads, and whatever traffic flows in the other direction.",
 ["schedules","histories","inputs"],"all message sequences, all ways both pipes fragment, delay and push back, all interleavings of the proxy's tasks",
 NOT_MAIN+" Fragmentation, short writes and back-pressure are schedule choices.",
 [M,L],[("framed reader","lsp-proxy/src/main.rs read_lsp_message"),("editor-to-server task","lsp-proxy/src/main.rs main (editor_to_ra)"),("pass-through","lsp-proxy/src/lib.rs process_outgoing")],
 ["bytes arriving on the language server's standard input"])
p("L02","Server-to-editor stream loses, repeats, reorders and alters nothing else",
 "The editor receives exactly one message for every complete message the language server sends, in the same order. A message whose text contains no quantity type arrives with its body byte-for-byte unchanged; only messages that display quantity types may be rewritten.",
 ["schedules","histories","inputs"],"all message sequences, fragmentations, delays, back-pressure and task interleavings",
 NOT_MAIN,[M,L,QD],[("server-to-editor task","lsp-proxy/src/main.rs main (ra_to_editor)"),("framed reader","lsp-proxy/src/main.rs read_lsp_message"),("cheap detection gate","lsp-proxy/src/quantity_detection.rs contains_quantity_types_fast"),("rewrite or pass through","lsp-proxy/src/lib.rs process_incoming")],
 ["bytes arriving at the editor"])
p("L03","Everything written to either peer is well-formed protocol framing",
 "At every instant, including the instant either peer dies or a write fails, the bytes the proxy has written to the editor and to the server are each a prefix of a sequence of correctly framed messages whose declared length equals the body's length in bytes. Nothing else, such as logging or the server's diagnostics, ever appears on those streams.",
 ["schedules","crash_points","inputs"],"every prefix of every session, with multi-byte text, rewritten messages that grow or shrink, and peers dying at any byte",
 NOT_MAIN+" Existing tests compare rewritten text, not the framing of a running stream cut at arbitrary points.",
 [M,L],[("length recomputed after rewriting","lsp-proxy/src/lib.rs process_incoming"),("frame reconstruction","lsp-proxy/src/main.rs read_lsp_message")],
 ["editor side and server side byte streams"])
p("L04","Rewriting a server message changes nothing but displayed type text",
 "When the proxy rewrites a message that displays quantity types, the result is the same protocol message: same kind, id, fields, positions, ranges and links, no field invented and none lost. Only the text that displays the type, and the annotation edit that the hint would insert, may differ; text outside the displayed quantity types is preserved.",
 ["inputs","histories"],"all hover and inlay-hint responses (and look-alikes) a server may send, in any position of a session",
 "Existing tests inspect a few hand-written hover and hint values for substrings; none compares the full message before and after, and none uses fields beyond the sampled ones.",
 [L,HOV,INL,ST,FMT],[("message model","lsp-proxy/src/lsp_structures.rs LspMessage, HoverContent"),("hint part merging","lsp-proxy/src/inlay_hint_processor.rs convert_whippyunits_hint"),("hover rewriting","lsp-proxy/src/hover_processor.rs improve_hover_content")],
 ["messages arriving at the editor"])
p("L05","No message content can end, wedge or poison a session",
 "Whatever text or JSON a well-framed message carries (any Unicode, truncated or nested type expressions, unexpected shapes, any display options), the proxy keeps the session alive: it forwards something well-framed for that message and continues to serve every later message in both directions.",
 ["inputs","histories","configurations"],"all well-framed message bodies, at any point of a session, under all display configurations",
 "The rewriter slices and scans text by hand; tests feed it a handful of well-formed strings, and a panic on an unusual one only shows as a dead session in the running program.",
 [M,L,HOV,INL,FMT,QD],[("rewrite in the relay task","lsp-proxy/src/main.rs main (ra_to_editor)"),("bracket matching and slicing","lsp-proxy/src/unit_formatter.rs, lsp-proxy/src/hover_processor.rs")],
 ["later messages still arriving at both peers"])
p("L06","Every legal message header is understood",
 "A peer may send any header block the base protocol allows: the length field with any capitalisation or surrounding blanks, a content-type field before or after it. The proxy frames the following body correctly and loses or merges no message.",
 ["inputs","schedules"],"all legal header blocks, in both directions, cut at any byte",
 "No test covers header parsing at all; all test messages use one header form.",
 [M],[("header parsing","lsp-proxy/src/main.rs read_lsp_message")],["message bodies arriving at the other peer"])
p("L07","When the server exits, its last messages arrive and the proxy ends",
 "If the language server exits or crashes at any point, every complete message it wrote before that reaches the editor (as long as the editor keeps reading), and the proxy then terminates within a bounded time even if the editor sends nothing more and keeps its end open. No part of an incomplete last message is presented as a message.",
 ["crash_points","schedules","fault_sequences"],"server exit or crash at every byte of its output, with any amount of undelivered output, any closing order of its streams, any editor reading speed",
 NOT_MAIN+" Which stream is seen closed first is a race.",
 [M],[("session end","lsp-proxy/src/main.rs main (select over the relay tasks, cleanup)"),("end-of-stream handling","lsp-proxy/src/main.rs read_lsp_message")],
 ["editor byte stream, proxy process end"])
p("L08","When the editor disconnects, the server gets everything and is not left behind",
 "If the editor closes its side at any point, every complete message it sent before that is readable by the language server before the server's input ends, a server that winds down on its own within a reasonable grace is not cut short, and the proxy ends within a bounded time leaving no server process running, even if the server ignores the end of its input.",
 ["crash_points","schedules","fault_sequences"],"editor disconnect at every byte, servers that are slow to read, exit on end of input, or ignore it",
 NOT_MAIN,[M],[("session end and child cleanup","lsp-proxy/src/main.rs main")],["server standard input, process table, proxy process end"])
p("L09","Malformed or truncated input never fabricates or misframes a message",
 "If a peer's stream is cut mid-message, has a header that is not legal, declares a length it never delivers, or carries bytes that are not text, the proxy delivers every complete message that came before, never delivers a message that was not sent, and either carries on or ends the session in bounded time. Memory it sets aside stays in proportion to the bytes actually received, not to the length a header claims.",
 ["fault_sequences","crash_points","inputs"],"truncation at every byte, garbage and illegal headers, absurd lengths, invalid text, in both directions",
 "No test feeds the reader anything malformed; the property needs every cut point.",
 [M],[("framed reader","lsp-proxy/src/main.rs read_lsp_message")],["both byte streams, allocation sizes"])
p("L10","A message's delivered form depends on that message and the options alone",
 "For fixed display options, what the editor receives for a given server message is the same whatever was sent before it, whatever travels in the other direction, how the streams are scheduled, and however often it has been sent already. Nothing about one session or message leaks into another.",
 ["histories","schedules","configurations"],"all histories preceding a message and all interleavings; compared with the same message relayed alone",
 "Tests call the rewriter on fresh instances, one message each, so history dependence is invisible to them.",
 [M,L,HOV,INL],[("configuration cloned per task","lsp-proxy/src/lib.rs LspProxy"),("buffers reused across messages","lsp-proxy/src/main.rs main")],
 ["messages arriving at the editor"])
p("L11","Server diagnostics are relayed whole and never disturb the session",
 "Everything the language server writes to its error stream appears, complete and in order, on the proxy's error stream and nowhere else. Whatever happens on that stream - silence, floods, early close, bytes that are not text - protocol traffic continues unaffected in both directions.",
 ["schedules","fault_sequences"],"all error-stream contents and lifetimes interleaved with protocol traffic",
 NOT_MAIN,[M],[("stderr forwarder","lsp-proxy/src/main.rs main (stderr_forwarder)")],["proxy error stream, both protocol streams"])
p("L12","Messages pass promptly; a stalled direction does not stop the other",
 "A complete message is forwarded within a bounded time of its last byte arriving, without waiting for further input, provided its receiver is reading. If one peer stops reading, traffic in the other direction keeps flowing, and everything held back is delivered once the peer reads again.",
 ["schedules","fault_sequences"],"all stall and resume patterns of either peer, all pipe capacities, idle periods of any length",
 NOT_MAIN+" Liveness needs a clock and a stalled peer.",
 [M],[("independent relay tasks","lsp-proxy/src/main.rs main"),("flush after every message","lsp-proxy/src/main.rs main")],["arrival times at both peers (simulated clock)"])
p("L13","The right server is started with the caller's arguments, or a clear failure",
 "The proxy starts the first language server in its search order that works, hands it the command-line arguments unchanged and a piped input, output and error stream, and starts no second one. If none works or starting it fails, the proxy exits with a failure status, having written nothing to the editor stream and left no process behind.",
 ["configurations","fault_sequences"],"all combinations of present, absent, broken and unstartable servers, home directories and arguments",
 "No test starts the program; which candidates exist and how launching fails is an environment fault space.",
 [M],[("discovery","lsp-proxy/src/main.rs find_rust_analyzer"),("launch","lsp-proxy/src/main.rs spawn_rust_analyzer")],["process table, exit status"])
p("L14","The relay's memory does not grow with the session or with a peer that lags",
 "What the proxy holds in memory at any time is bounded by the length of the longest messages, not by how much has been relayed so far and not by how far one peer is behind: while a receiver does not read, the proxy stops taking from the other side after a bounded amount instead of collecting without limit, and a message that has been delivered leaves nothing behind.",
 ["histories","schedules"],"all session lengths, all stalls of either receiver while its peer keeps sending, floods of diagnostics",
 NOT_MAIN+" A test of a few messages cannot tell a bounded buffer from an unbounded one.",
 [M],[("back-pressure of the relay loops","lsp-proxy/src/main.rs main (editor_to_ra, ra_to_editor)"),("diagnostics","lsp-proxy/src/main.rs main")],["memory held by the proxy at its peak"])
# ---------------------------------------------------------------- pretty CLI
p("C01","The output filter is faithful line for line, however input arrives",
 "For each input line, in order, the compiler-output filter writes exactly that line's conversion and a line end; a line that mentions no quantity type comes out unchanged, and what a line becomes depends only on that line and the options. This holds however the input is split into reads, including interrupted reads, very long lines and a missing final newline.",
 ["inputs","schedules","histories","configurations"],"all input texts, all ways reads are split and interrupted, all option combinations",
 "Tests call the line converter directly on a few lines; reading, splitting and writing are never run.",
 [PM,PP],[("line loop","whippyunits-pretty/src/main.rs main"),("line conversion","whippyunits-pretty/src/rustc_pretty.rs process_line")],["bytes on standard output"])
p("C02","The output filter does not hold back finished lines",
 "When used in a pipeline, the result for every complete input line is visible on standard output before the filter waits for more input. A slow or stalled producer therefore never hides a diagnostic it has already finished.",
 ["schedules"],"all arrival patterns of the input, stalls after any line",
 "No test runs the program with a live producer.",
 [PM],[("per-line output","whippyunits-pretty/src/main.rs main")],["standard output at each blocking read"])
p("C03","The output filter never reports success after losing output",
 "If any input cannot be read or any output cannot be written (read error, text that cannot be decoded, full disk, closed pipe, missing file), the filter ends with a failure status; it exits successfully only if every input line was converted and fully written. Whatever it did write is a prefix of the fault-free output.",
 ["fault_sequences","crash_points"],"a fault of each kind at every read, every write and every byte offset",
 "No test injects an I/O fault.",
 [PM],[("error propagation","whippyunits-pretty/src/main.rs main")],["exit status, bytes on standard output"])
p("C04","Filtering a file and filtering a stream give the same lines",
 "For the same text and options, the filter's file mode and its stream mode produce the same sequence of lines, whatever the read sizes, interruptions and line terminators.",
 ["inputs","schedules","configurations"],"all texts and options, all read fragmentations in either mode",
 "Neither mode is run by any test.",
 [PM,PP],[("file mode","whippyunits-pretty/src/main.rs main"),("whole-text conversion","whippyunits-pretty/src/rustc_pretty.rs process_rustc_output")],["bytes on standard output"])
p("C05","The output filter's memory does not grow with the stream",
 "When filtering a stream, what the filter holds in memory is bounded by the longest line, however many lines have passed through it.",
 ["histories","schedules"],"streams far longer than any buffer, however they are cut into reads",
 "No test runs the program, let alone on megabytes.",
 [PM,PP],[("line loop","whippyunits-pretty/src/main.rs main"),("line conversion","whippyunits-pretty/src/rustc_pretty.rs process_line")],["memory held by the filter at its peak"])
# ---------------------------------------------------------------- serde exchange
p("Q01","A quantity exchanged between parties keeps its physical amount",
 "When one party writes a quantity of any unit and scale as a record and another party reads that record into any unit and scale of the same dimension, through streams that fragment, delay, duplicate and retry, the quantity read denotes the same physical amount up to floating-point rounding. Chains of re-encoding by parties with different scales do not drift.",
 ["histories","configurations","inputs","schedules"],"all pairs and chains of unit scales and dimensions, all values, all fragmentations",
 "The only serialisation tests encode 5 m and parse a few unit strings; no test decodes what was encoded, and scales and compound units are never exchanged.",
 [SER,"src/print/name_lookup.rs","src/scale_conversion.rs"],[("encoding","src/serialization.rs Serialize, serialize_to_json, to_ucum_unit"),("decoding","src/serialization.rs Deserialize, deserialize_core_quantity")],["value and unit read by the receiving party"])
p("Q02","A damaged or incomplete record is refused, never misread, and never panics",
 "A record that is cut short, torn, corrupted or interrupted by a read error is either refused with an error or decoded to exactly what its surviving bytes state; decoding never panics, hangs or returns a quantity its bytes do not denote. After a refusal, decoding an intact copy succeeds.",
 ["fault_sequences","crash_points","inputs"],"truncation at every byte, flipped and spliced bytes, read errors at every point, hostile numbers and unit expressions",
 "No test decodes a damaged record.",
 [SER,"whippyunits-core/src/parser.rs"],[("record visitor","src/serialization.rs visit_map"),("unit expression parsing","whippyunits-core/src/parser.rs UnitExpr::parse, evaluate_with_mode")],["result of decoding"])
p("Q03","Records with a wrong or unknown unit are refused at every entry point",
 "A record or string whose unit has a different dimension from the one the reader declared, or names any unit the library does not know (alone or inside a compound expression), is refused with an error by every reading interface; the interfaces agree with one another on every record.",
 ["inputs","configurations","histories"],"all unit expressions over known and unknown names, all declared targets, all reading interfaces",
 "Existing tests refuse one wrong dimension; unknown names inside expressions and agreement between interfaces are not tested.",
 [SER,"whippyunits-core/src/parser.rs"],[("dimension check","src/serialization.rs dimensions_match"),("unit evaluation","src/serialization.rs parse_ucum_unit")],["result of decoding"])
p("Q04","A failing sink is reported and never leaves a silently partial text",
 "Writing a quantity (as a record, or as display, debug or converted text) into a sink that accepts only part of it, refuses at any point, or is interrupted either completes with exactly the same text as into an ideal sink or returns an error, and what reached the sink is always a prefix of that text. A later attempt on a healthy sink succeeds in full.",
 ["fault_sequences","crash_points"],"a refusal at every byte offset, every short-write pattern, every formatter",
 "Tests format into infallible strings only.",
 [SER,"src/print/display_traits.rs","src/quantity.rs"],[("record encoding","src/serialization.rs Serialize"),("formatters","src/print/display_traits.rs; src/quantity.rs QuantityFormatter")],["bytes in the sink, returned result"])
p("Q05","Decoding from a stream consumes one record and does not depend on fragmentation",
 "Decoding a record from a stream gives the same result as decoding it from memory, for every way the stream is split, interrupted or escaped and for every order of its fields, and takes exactly that record's bytes, so that consecutive records on one stream are each read exactly once and in order, also when some of them are refused.",
 ["schedules","inputs","histories"],"all sequences of records, all fragmentations and interruptions, all equivalent spellings of a record",
 "No test decodes from a reader or decodes more than one record.",
 [SER],[("record visitor","src/serialization.rs QuantityVisitor::visit_map")],["decoded sequence"])
# ---------------------------------------------------------------- macros
p("M01","Code generation is reproducible",
 "What the library's macros generate depends only on their input: not on hash randomisation, the order or number of earlier expansions, the thread, or the run. Building the same source twice therefore yields the same generated items in the same order.",
 ["schedules","histories","inputs"],"all hash seeds and all sequences of expansions",
 "A test process has one hash seed per thread and checks no generated text; differing builds are invisible to it.",
 ["proc-macros/src/lib.rs","proc-macros/src/generate_default_declarators_macro.rs"],[("grouping by dimension","proc-macros/src/generate_default_declarators_macro.rs generate_system_declarators")],["generated tokens"])

# ---------------------------------------------------------------- not a simulation target
PURE="Existing tests sample a few values; the claim is for every one."
p("D01","Quantities of different dimensions never mix",
 "No program that adds, compares, assigns or passes quantities of different dimensions compiles.",
 ["programs"],"all programs","Compile-fail tests cover four programs.",["src/arithmetic.rs","src/quantity.rs"],[("type parameters","src/quantity.rs Quantity")])
p("D02","Scales are explicit: no silent rescaling",
 "No program that combines quantities of the same dimension but different scale compiles without an explicit rescale, and no operation changes a scale the caller did not ask to change.",
 ["programs"],"all programs","Compile-fail tests cover one program.",["src/arithmetic.rs","src/api.rs"],[("same-scale operator impls","src/arithmetic.rs")])
p("D03","Arithmetic yields the right dimension, scale and value",
 "Multiplying, dividing and raising quantities to powers adds, subtracts and multiplies dimension and scale exponents and applies the same operation to the stored values.",
 ["inputs","programs"],"all operand types and values",PURE,["src/arithmetic.rs","src/dimension_traits.rs"],[("operator impls","src/arithmetic.rs")])
p("D04","Rescaling preserves physical amount",
 "Rescaling a float quantity multiplies its value by the exact ratio of the two scales up to rounding; integer rescaling returns the correctly rounded value or signals that it cannot.",
 ["inputs"],"all values and scale pairs",PURE,["src/scale_conversion.rs","src/api.rs","src/rescale_macro.rs"],[("scale ratio","src/scale_conversion.rs")])
p("D05","One physical type has one type: equal units are interchangeable",
 "Two unit expressions that denote the same dimension and scale name the same type whatever way they are written.",
 ["programs"],"all unit expressions",PURE,["proc-macros/src/unit_macro.rs","whippyunits-core/src/parser.rs"],[("normal form by prime exponents","whippyunits-core/src/scale_exponents.rs")])
p("D06","Unit expressions mean what they say",
 "For every unit expression in the documented grammar, the dimension, scale, conversion factor and offset computed are those of its terms combined by the stated operators.",
 ["inputs"],"all unit expressions",PURE,["whippyunits-core/src/parser.rs","whippyunits-core/src/units.rs"],[("parser and evaluator","whippyunits-core/src/parser.rs")])
p("D07","Constructing and reading a value in a unit are inverse",
 "Reading a quantity in the unit it was made from returns the value given, and reading it in another unit of its dimension returns the correctly converted value, including units with offsets.",
 ["inputs","programs"],"all values and unit pairs",PURE,["proc-macros/src/quantity_macro.rs","proc-macros/src/value_macro.rs"],[("macros","proc-macros/src/value_macro.rs")])
p("D08","Erasure happens only where physically neutral",
 "Only dimensionless (and, where documented, angular) quantities convert to plain numbers, with their scale applied.",
 ["programs","inputs"],"all quantity types",PURE,["src/quantity.rs"],[("erasure impls","src/quantity.rs")])
p("D09","Displayed unit names denote the quantity's unit",
 "The unit shown for a quantity or a quantity type denotes exactly its dimension and scale.",
 ["inputs"],"all dimensions and scales",PURE,["src/print/prettyprint.rs","whippyunits-core/src/storage_unit.rs","lsp-proxy/src/unit_formatter.rs"],[("unit name generation","src/print/prettyprint.rs")])
p("D10","Literal and declarator forms agree with the unit macros",
 "A quantity written with a literal suffix or a declarator method equals the one written with the quantity macro for the same unit, for default and custom declarator sets.",
 ["programs","inputs"],"all units and values",PURE,["src/default_declarators.rs","proc-macros/src/define_literals_macro.rs"],[("generated declarators","proc-macros/src/generate_default_declarators_macro.rs")])
p("D11","Branded quantities do not mix across brands",
 "No program combines quantities of different brands without an explicit conversion.",
 ["programs"],"all programs",PURE,["proc-macros/src/define_unit_declarators_macro.rs","src/quantity.rs"],[("brand type parameter","src/quantity.rs Quantity")])
p("D12","Generic dimension bounds accept exactly the stated dimensions",
 "A generic function bounded by a defined dimension accepts every quantity of a dimension in its definition, at any scale, and no other.",
 ["programs"],"all dimension definitions and quantities",PURE,["proc-macros/src/define_generic_dimension_macro.rs"],[("generated trait impls","proc-macros/src/define_generic_dimension_macro.rs")])
p("D13","The library costs nothing at run time",
 "A quantity has the size, alignment and generated arithmetic of its stored number.",
 ["programs"],"all quantity types and operations",PURE,["src/quantity.rs"],[("phantom parameters","src/quantity.rs Quantity")])
p("D14","The core works without the standard library and without allocation",
 "With default features off, declaration, arithmetic, rescaling, erasure and generic dimensions compile for targets with neither a standard library nor an allocator.",
 ["configurations","programs"],"all feature combinations","Tests build one feature set.",["src/lib.rs","Cargo.toml"],[("feature gates","src/lib.rs")])
p("D15","The unit tables are consistent",
 "No two units share a symbol ambiguously, every factor is within its stated range, and every prefix and unit in the tables has its internationally agreed value.",
 ["inputs"],"all table entries",PURE,["whippyunits-core/src/units.rs","whippyunits-core/src/dimensions.rs","whippyunits-core/src/prefix.rs"],[("tables","whippyunits-core/src/units.rs")])
p("D16","Comparison of quantities agrees with comparison of amounts",
 "Equality and ordering of two quantities of one type agree with equality and ordering of their stored numbers, including the partial order of floats.",
 ["inputs"],"all values",PURE,["src/quantity.rs"],[("comparison impls","src/quantity.rs")])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
