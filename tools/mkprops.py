#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the texts stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}})
G, PA, SV, SH, GK, UT, VE, LO = ["src/%s.c" % x for x in ("grengine", "parse", "server", "simple_sparsehash", "greshunkel", "utils", "vector", "logging")]

p("C01", "Handling a request never touches memory it does not own",
  "Whatever bytes a client sends, and however they arrive, receiving, parsing, dispatching and answering the request reads and writes only memory inside the buffers that belong to it. No freed memory and no memory that was never written is used on the way.",
  ["inputs", "fault_sequences"], "every request of every length and content (NUL bytes included), every split into received pieces, every response size, header set and status, every point at which the peer stops reading",
  "The tests parse three or four well-formed requests; over-reads by one byte, lengths near a buffer boundary and odd header orders leave no trace in them.",
  [G, PA, UT], [("length-bounded search and copies", PA), ("response buffer sizing", G + ":m38_generate_response"), ("send cursor", G + ":m38_send_response")],
  ["every load, store and string call reachable from generating and sending a response"])
p("C02", "Every byte sent is a written byte of this response",
  "Each byte handed to the connection was written as part of that request's response: the status line and headers, then directly the body the handler produced. No gap, stray terminator, uninitialised or foreign memory is ever sent.",
  ["inputs", "configurations"], "every body size and content, content type, set of added headers, status code and requested range",
  "A test that looks at the text of one response cannot see bytes that happen to be zero, nor a size miscalculation that appears only when a number gains a digit.",
  [G], [("head size computed before formatting", G + ":m38_generate_response"), ("body copied behind the head", G + ":m38_generate_response")],
  ["send()"])
p("C03", "Announced lengths and ranges match the body that follows",
  "The Content-Length of a response is exactly the number of body bytes that follow its head. A partial response announces the first and last position and the total size of precisely the bytes it carries, and a range lying inside the body is honoured as asked.",
  ["inputs"], "every body size, every Range header value, every status",
  "Tests never fetch a range; the digits of the numbers influence the buffer size, so the failing sizes are powers of ten apart.",
  [G, PA], [("range clamping", G + ":m38_generate_response"), ("range parsing", PA + ":m38_parse_range_header")],
  ["the head of the response", "send()"])
p("C04", "An accepted connection is closed exactly once",
  "Every connection handed to the server is closed exactly once: after its last byte was sent, or when the request cannot be received, parsed, queued or sent. It is not used after that, and no other descriptor is closed in its stead.",
  ["inputs", "fault_sequences"], "every request, every failing receive or send, every outcome of dispatch",
  "A leaked or doubly closed descriptor shows only under failure, and then as somebody else's connection breaking later.",
  [G, SV], [("close after the last byte", G + ":m38_send_response"), ("close on error", G + ":m38_generate_response, m38_abort_response")],
  ["close()"])
p("C05", "Everything allocated for a request is released exactly once",
  "Whatever memory was allocated to serve a request is released exactly once by the time the request is over, on success and on each failing path. Nothing allocated per request outlives it.",
  ["inputs", "fault_sequences"], "every request, every subset of optional headers, form bodies, added headers, failing receives and sends",
  "The tests do not count allocations, and the paths that leak are those with optional parts or failures.",
  [G, PA, SH], [("common exits", G + ":m38_generate_response"), ("release after sending", G + ":m38_send_response"), ("form dictionary", SH + ":sparse_dict_free")],
  ["malloc/free pairs along every path"])
p("C06", "A handler's cleanup runs exactly once with its own response",
  "For each request a handler answered, the cleanup registered with that route runs exactly once, after the last byte was sent or sending was given up. It receives the status that was sent and the body and size the handler produced.",
  ["inputs", "fault_sequences"], "every status, requested range, failing send, and number of partial sends",
  "Cleanup happens after the response is gone; a wrong status or a second call corrupts memory later, which no test waits for.",
  [G], [("cleanup after the last byte", G + ":m38_send_response"), ("cleanup on failure", G + ":m38_abort_response")],
  ["the cleanup callback's arguments"])
p("C07", "A response is sent completely, in order and without repetition",
  "The bytes of a response reach the connection in order, each once: every send continues where the previous one stopped by what the connection accepted, never past the end. Sending ends when all bytes were accepted or a send fails.",
  ["inputs", "fault_sequences"], "every sequence of partially accepted sends and every response length",
  "A loopback connection accepts each piece completely, so a cursor that advances by the offered rather than the accepted amount looks right.",
  [G, SV], [("send cursor", G + ":m38_send_response")], ["send()"])
p("C08", "The first route whose verb and pattern match handles the request",
  "A handler runs only if its route's verb equals the request's and its pattern matches the requested path; of several such routes the first registered runs, once, with the spans its pattern matched. If there is none, or the handler answers 404 without a body, the not-found route in force answers.",
  ["inputs", "configurations"], "every route table, every verb and path, with and without a custom not-found handler",
  "Tests do not dispatch; order and fall-through depend on the table.",
  [G, SV], [("route scan", G + ":m38_generate_response"), ("not-found handler", SV + ":m38_set_404_handler")], ["handler calls"])
p("C09", "Every documented status has a well-formed head of its own",
  "Each status a handler may answer with, and each one the library produces itself, is sent with a head that starts with that very status, and consists of complete header lines ended by one empty line. No such status stops the server.",
  ["inputs", "configurations"], "every supported status code, content type, added header set and body size",
  "The tests check only the shape of some of the texts, not which one is picked nor what is around it.",
  [G], [("status table", G + ":response_headers"), ("selection and formatting", G + ":m38_generate_response")], ["the head of the response"])
p("C10", "Work handed between threads arrives whole, alive and once",
  "Each message between the accepting, working and responding threads has the size the receiving side uses, and what a thread is given at its start or in a message stays alive and unchanged until it has used it. Nothing left by an earlier run is ever taken for work.",
  ["schedules", "configurations"], "every interleaving of the starting thread, acceptor, workers and responder, every number of worker threads",
  "No test starts the server; a thread argument that dies early works whenever the new thread happens to start quickly.",
  [SV], [("queues", SV + ":_open_queue"), ("worker arguments", SV + ":m38_http_serve")], ["mq_send/mq_receive", "pthread_create"])
p("C11", "The server's threads cannot block each other for good",
  "No thread of the server waits for room in a queue that only it drains, and none keeps waiting on work while holding something another one needs. A full queue delays requests but never stops the server.",
  ["schedules"], "every interleaving and fill level of the bounded queues",
  "The circular wait needs more unfinished responses than a queue holds.",
  [SV], [("responder re-queues without waiting", SV + ":responder")], ["blocking calls per thread and queue"])
p("C12", "Requests served in parallel share no unprotected state",
  "Code that runs for a request keeps no state of its own between or across requests: it writes no global or function-static variable without mutual exclusion and calls no library function that does. Two requests served at the same time get the answers they would get alone.",
  ["schedules"], "every interleaving of any number of worker, responder and acceptor threads",
  "A data race needs a particular interleaving, and the tests run one thread.",
  [G, PA, SV, SH, GK, UT, VE, LO], [("call graph from the threads' entry points", SV)], ["writes to objects with static storage", "library calls"])
p("C13", "Every input is processed in finite time",
  "Receiving, parsing, hashing, storing, decoding, rendering and sending end for inputs of every length and content; no length wraps a counter, and no value makes a loop stand still. Each request ends with a sent response or a closed connection.",
  ["inputs"], "every length (also beyond 255 and 65535) and content of request parts, keys, template texts and values",
  "A loop over a short counter only hangs on inputs longer than any the tests use.",
  [G, PA, UT, SH, GK, VE], [("loops over lengths", UT + ":hash_string_fnv1a"), ("receive loop", G + ":read_max_bytes_from_socket"), ("probing loops", SH)], ["loop exits"])
p("C14", "The dictionary returns exactly what was stored under a key",
  "A lookup finds a value exactly if one was stored under the identical key, whatever other keys exist, and returns the most recent one; storing never loses or mixes up another entry. This holds across growth, hash collisions, keys of any bytes and length, and every probing order.",
  ["inputs", "histories"], "every sequence of stores and lookups over every set of keys, colliding ones and prefixes of each other included",
  "The collision pattern that skips a slot or matches a prefix has to be constructed; random small keys do not show it.",
  [SH], [("key comparison", SH + ":sparse_dict_get"), ("probing", SH), ("growth", SH)], ["sparse_dict_set/get"])
p("C15", "A vector hands out what was appended and nothing beyond it",
  "Appending keeps all earlier elements and makes the new one readable at the next index, for any element size and starting capacity. Reading outside the stored elements yields nothing, and no operation touches memory outside the vector's storage.",
  ["inputs", "histories"], "every initial capacity (also 0), element size, number of appends and index",
  "Tests append a handful of elements with one capacity.",
  [VE], [("growth", VE + ":vector_append"), ("bounds", VE + ":vector_get")], ["vector_append/vector_get"])
p("C16", "Rendering a template leaves the caller's context as it was",
  "Rendering, also of loops, conditionals and includes, failing or not, does not release, add to or change the context it was given: rendering the same template twice gives the same text, and the context can still be released once afterwards.",
  ["inputs", "histories"], "every template, every context with nested contexts and arrays, every number of renderings",
  "Each test renders a fresh context once.",
  [GK], [("loop and conditional evaluation", GK)], ["writes and releases reaching the given context"])
p("C17", "Fixed-size names and values are always terminated",
  "Texts copied into fixed-size fields (verbs, paths, template value names and values, content types) are always terminated inside the field, whatever the length of the source. Reading them back never runs into what lies behind.",
  ["inputs"], "every source length, in particular the size of the field and more",
  "Tests use names far shorter than the fields.",
  [GK, PA, G, SV], [("bounded copies", GK + ":gshkl_add_string"), ("verb and path", PA + ":m38_parse_request")], ["fixed-size character fields"])
p("C18", "Rendering touches and releases only its own memory",
  "Rendering any template with any context reads and writes only inside its buffers, and has released all its intermediate memory and compiled patterns when it returns, also when it fails. The returned text is terminated and as long as reported.",
  ["inputs"], "every template text and length, every context, every failing step",
  "The tests render small well-formed templates; an error path or a match at the end of the text is never taken.",
  [GK], [("line buffers", GK + ":_interpolate_line"), ("result assembly", GK + ":gshkl_render")], ["every load, store and release reachable from rendering"])
p("C19", "The Python binding calls the library as the library is declared",
  "Every library function the Python binding uses exists, and is called with as many arguments, of the same kinds and widths, as its C prototype declares, and its result is read as the declared type. Lengths given for texts are their lengths in the encoding that is passed.",
  ["inputs", "configurations"], "every call the binding can make, for every argument value",
  "A missing declaration defaults to int and works until a pointer or size exceeds 32 bits.",
  ["python/greshunkel.py", "include/greshunkel.h"], [("argument and result declarations", "python/greshunkel.py")], ["ctypes calls"])
p("C20", "Log and format texts never interpret data",
  "Each formatting call uses a constant format text whose conversions agree in number and type with the arguments; nothing received from a client or taken from a template is used as a format. Formatted output is bounded by the buffer it goes to.",
  ["inputs"], "every logged or formatted value",
  "Only a value containing a conversion reveals data used as a format, and a type mismatch shows on other platforms or values.",
  [LO, G, PA, SV, GK, SH], [("logging", LO + ":m38_log_msg")], ["printf-family and logging calls"])
p("C21", "A request takes a bounded amount of memory",
  "However much a client sends, the server stores at most a fixed amount for it: it stops receiving once the limit is reached, and no length announced by a client decides how much is allocated or cleared.",
  ["inputs"], "every amount of sent data, every announced length",
  "Tests send small requests from memory.",
  [G, PA], [("receive limit", G + ":read_max_bytes_from_socket"), ("body copies", PA + ":m38_parse_body")], ["recv(), allocation sizes"])
p("C22", "A failing system call is never taken for data",
  "The result of each system call on a request's way is examined before it is used: a failed receive, send, queue, file or memory-mapping call leads to an orderly end of that request, not to its return value being used as a size, descriptor or address. A peer that goes away does not end the process.",
  ["fault_sequences"], "every system call on the way of a request and of serving files, failing at every point",
  "Tests meet no failing system call.",
  [G, SV, UT], [("receive", G + ":read_max_bytes_from_socket"), ("send flags", G + ":m38_send_response"), ("files", G + ":mmap_file_ol")], ["system call results"])
p("C23", "A served file carries the content type of its extension",
  "Serving a file never reads outside its path while looking for the extension, and answers with the type belonging to exactly that extension, or with a defined default; a content type the handler already set is kept. The type always fits its field.",
  ["inputs"], "every path (short, without or with several dots), every extension",
  "No test serves a file by extension.",
  [G], [("extension scan", G + ":mmap_file_ol"), ("type table", G + ":mimetype_mapping")], ["the content type of a response"])
p("C24", "Library calls report success and failure as documented",
  "Each public call's result tells apart success and failure the way its documentation states, on every path: a success is reported only if the effect took place, and a failure only if nothing was left behind.",
  ["inputs", "fault_sequences"], "every argument and every failing step inside the call",
  "Tests check successful calls, mostly without looking at the result.",
  [G, PA, SH, VE, UT, GK], [("public prototypes", "include/*.h")], ["results of public calls"])
p("C29", "No request and no passing failure stops the server",
  "Whatever a client sends or does, and whatever failure passes by or concerns only one connection (an aborted connection, an interrupted call, descriptors or memory running short, a full queue, a peer that went away while being answered), the process is not ended and the acceptor, the workers and the responder go on. A thread ends only when its own socket or queue can no longer be used.",
  ["inputs", "fault_sequences", "schedules"], "every request, every sequence of failures of accepting, receiving from and sending to a queue, and sending to a peer, in every thread",
  "The tests start no server at all; a thread that gives up after the first refused connection leaves a server that looks alive and answers nobody.",
  [SV, G, PA], [("what an accept failure means", SV + ":acceptor"), ("what a queue failure means", SV + ":handler"), ("responses in parts", SV + ":responder"), ("sending without signals", G + ":m38_send_response")],
  ["the end of each thread function", "every exit, abort and assertion on the way of a request", "the flags of send()"])
p("C30", "What a handler is given is what the client sent",
  "The verb, the path, the header block, a header's or a cookie's value, and the body that a handler is given, and the fields of a form before they are decoded, are byte for byte the bytes of the request they stand for: they start and end where the part does, with nothing of another part, of another request or of the server's memory in them, and nothing cut off.",
  ["inputs"], "every request of any length, every header, cookie and field name, wherever the parts lie in the request",
  "Tests parse a few fixed requests, in which a shift by one, a cut at a length limit or a wrong delimiter does not show.",
  [PA, UT, G], [("header values", UT + ":m38_get_header_value_raw"), ("cookies", UT), ("request line, headers and body", PA), ("form fields", PA)],
  ["what the request accessors return, for the bytes received"])
p("C25", "A condition and its negation are complementary in templates",
  "For every value, exactly one of a condition and its negated form lets its text through, wherever the condition's name comes from.",
  ["inputs"], "every condition value, plain and inside nested contexts",
  "Tests assert both forms for a few values only.",
  [GK], [("conditional evaluation", GK)], ["rendered text"])
p("C26", "Rendered text equals the template with every value put in",
  "The rendered text is the template in which each value reference is replaced by the value's text and each loop body repeated for each element, everything else unchanged.",
  ["inputs"], "every template and context",
  "Tests compare a few small templates.",
  [GK], [("interpolation", GK + ":_interpolate_line")], ["rendered text"])
p("C27", "Form decoding inverts form encoding",
  "A form field's name and value, as encoded by a browser, reach the handler decoded to exactly the original bytes.",
  ["inputs"], "every field name and value",
  "Tests decode a few fields.",
  [PA, UT], [("decoding", UT + ":m38_url_decode")], ["form lookups"])
p("C28", "Concurrent connections are served fairly and without long delay",
  "A response in progress does not keep others waiting: with many connections each makes progress, independently of how fast the others' peers read.",
  ["schedules"], "every mix of fast and slow peers",
  "No test opens a connection.",
  [SV, G], [("responder round robin", SV + ":responder")], ["send()"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
open(out, "w").write("".join(json.dumps(x) + "\n" for x in P))
for x in P:
    assert len(x["title"]) <= 80, x["id"]
print(len(P), "properties")
