import json
def P(id,title,statement,over,text,why,files,mech,**k):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    a.update(k)
    return {"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a}
I=["inputs"]
L=[
P("P01","Paths are split into segments in one way only",
 "A request path, once percent-decoded and without its first '/' and one final '/', is routed as the byte strings between its '/' separators, in order, empty ones included; if nothing is left (as of the root path '/'), there are no segments. A path used to register or look up a route is split by the same rule, whether it is given as a string, bytes or a list, so a route registered for a path without variables matches exactly the requests with the same segments.",
 I,"every byte string used as a request path or as a registered path","Tests try a few tidy paths; doubled, leading, trailing and non-UTF-8 parts and every length have to be split in the same way on both sides.",
 ["src/handler/routing.rs","src/handler/tree_router.rs"],[("Route::segments for byte strings","src/handler/routing.rs"),("RouteState::from","src/handler/routing.rs")]),
P("P02","A request reaches exactly the handlers whose route matches it, in order",
 "A tree router offers a request to the handlers registered at the routes whose patterns match all of the request's segments, and to no others: a static segment matches itself, ':name' any one segment and '*name' any one or more segments. The candidates are tried in order of preference (at each segment static before variable before wildcard, a shorter wildcard before a longer one) until one accepts the request. If nothing matches the answer is 404, and if every candidate declines it's the status set by the last one, each candidate having been offered the request with the status it had from the start.",
 ["inputs","configurations"],"every set of registered routes, every request path and every pattern of handlers declining requests","The set of route trees, paths and declining handlers is infinite and backtracking bugs need particular overlaps of static, variable and wildcard routes.",
 ["src/handler/tree_router.rs","src/handler/routing.rs","src/server/instance.rs"],[("TreeRouter::handle_request","src/handler/tree_router.rs"),("RouteState::skip/keep/fuse/go_to","src/handler/routing.rs")]),
P("P03","Path variables hold what their segments matched",
 "When a handler is reached through a route, each named variable in that route is in the request's variables with the value of the one segment (for ':name') or the '/'-joined run of segments (for '*name') it matched in this very match, the last one winning if a name is repeated. Unnamed variables capture nothing and no other variables are present, however many other routes were tried before.",
 ["inputs","configurations"],"every route with variables, every request matching it and every history of routes tried before","Values depend on all overlaps of routes and on backtracking state, tests cover single routes.",
 ["src/handler/routing.rs","src/handler/variables.rs","src/handler/tree_router.rs"],[("VariableIter","src/handler/routing.rs"),("Variables::handle_request","src/handler/variables.rs")]),
P("P04","Hyperlinks list what can be reached, and never change routing",
 "With find_hyperlinks enabled, a handler that's offered a request receives the set of links for all endpoints matching the path: one per other method (or handler) at the matching nodes and one per child segment, with its kind and label, and none for the request's own method. Enabling it never changes which handlers are offered the request, their variables or the answer; without it no hyperlinks are collected.",
 ["inputs","configurations"],"every set of registered routes and every request","Two search modes have to agree on all route trees, tests compare a few link lists.",
 ["src/handler/tree_router.rs","src/handler/method_router.rs"],[("TreeRouter::handle_request, hyperlink mode","src/handler/tree_router.rs"),("HandleRequest::hyperlinks","src/handler/mod.rs")]),
P("P05","Building a router registers what was asked for, where it was asked",
 "Every sequence of builder calls (path, on_path, handler, on_route, get_path, then, many, method builders, collecting from tuples) gives the router where each handler answers exactly its path relative to the builder it was called on, with the variable names given there; a later handler for the same place replaces the earlier one and everything else stays. get_path finds a builder exactly if that path was created before, and no path makes building panic.",
 ["inputs","programs"],"every sequence of builder calls and every path","Builder calls compose without bound; tests use a handful of fixed sequences.",
 ["src/handler/tree_router.rs","src/handler/method_router.rs","src/handler/mod.rs"],[("Builder","src/handler/tree_router.rs"),("method_router::Builder","src/handler/method_router.rs")]),
P("P06","Merging routers gives the union, the merged one winning",
 "Merging a router into a router, at any path, gives a router that answers all routes of both, where the merged-in handler wins if both have a handler for the same path and method, and variable names of the merged routes are kept, after the variables on the path to the merge point. Whatever else the builder's context tells is told to every merged-in handler. Nothing that was registered before for other paths or methods is lost or moved.",
 ["inputs","programs"],"every pair of routers and every merge point","The result has to be right for all pairs of trees, tests merge a few small ones.",
 ["src/handler/tree_router.rs","src/handler/method_router.rs","src/handler/variables.rs","src/handler/mod.rs"],[("Merge for TreeRouter","src/handler/tree_router.rs"),("Merge for MethodRouter","src/handler/method_router.rs")]),
P("P07","Composed routers hand a request on unchanged until one takes it",
 "MethodRouter offers a request only to the handler for its method, and otherwise declines with 405; StatusRouter only to the handler for the response's current status, and otherwise declines without changing it; OrElse offers it to the secondary exactly if the primary declined it; an empty Option declines with 404. In any nesting of these and TreeRouter, the request a later handler is offered is the one that arrived, except for the status the decliners left, and hyperlinks() reports the links of all parts; the link to a handler leads to that handler and tells its description. Functions, Arcs and boxes of handlers handle that request as it is, and a content factory sends what it creates from it.",
 ["inputs","configurations"],"every nesting of routers, every request and every pattern of declining handlers","Nestings are unbounded and state leaks show only in particular combinations.",
 ["src/handler/method_router.rs","src/handler/status_router.rs","src/handler/or_else.rs","src/handler/mod.rs","src/handler/tree_router.rs"],[("HandleRequest impls","src/handler/mod.rs")]),
P("P08","Query strings and form bodies decode to their name-value pairs",
 "A query string, or a URL-encoded form body, is split at each '&' into parameters and each of them at '=': the part before the first '=' is the name and the part up to the next '=' (or nothing) the value, after '+' became a space and percent escapes were decoded, in that order. Every such pair, also with an empty name, is found in the parameters, the last one winning for repeated names, and nothing else is.",
 I,"every byte string","All byte strings have to be decoded, including malformed escapes and stray separators; tests try three strings.",
 ["src/utils.rs","src/context/body.rs"],[("parse_parameters","src/utils.rs"),("BodyReader::read_query_body","src/context/body.rs")]),
P("P09","A request target is split into host, path, query and fragment",
 "An origin-form target is cut at the first '#' into fragment and the rest, which is cut at the first '?' into path and query; path and fragment are percent-decoded, an empty path becomes '/', and the query is decoded as parameters. An absolute-form target gives the same parts of its URL and sets the Host header from it, '*' is the asterisk target which reaches no handler, and other targets are answered with 400. The accessors of UriPath tell whether there is a path, its bytes, its text if it's UTF-8, and its lossy text.",
 I,"every request target","Targets are arbitrary strings, tests check a dozen well-formed ones.",
 ["src/server/instance.rs"],[("parse_path, parse_fragment, parse_url","src/server/instance.rs"),("ServerInstance::handle","src/server/instance.rs")]),
P("P10","MaybeUtf8 keeps its bytes and knows if they're UTF-8",
 "After any sequence of conversions, pushes and buffer edits through the safe interface, the bytes of a MaybeUtf8 are exactly those a plain byte vector would have after the same steps. It's tagged as UTF-8 exactly if those bytes are valid UTF-8, and its string views (strict, lossy, owned) agree with the standard library's for the same bytes.",
 ["inputs","histories"],"every byte content and every sequence of edits","Validity depends on how bytes of separate pushes join, over all histories; tests do single pushes.",
 ["src/context/maybe_utf8.rs","src/utils.rs"],[("MaybeUtf8, Buffer","src/context/maybe_utf8.rs")]),
P("P11","MaybeUtf8 compares, sorts and hashes as its bytes",
 "Equality, ordering and hashing of MaybeUtf8 values depend on their bytes alone: with each other, with strings and with byte slices, on both sides of the operator, the result is that of comparing the byte strings, and equal values have the same hash as their byte slice.",
 I,"every pair of byte strings in every representation","Needs agreement on all pairs of values and all operand types; tests cover none of the ordering ones.",
 ["src/context/maybe_utf8.rs"],[("PartialEq, PartialOrd, Ord, Hash, Borrow impls","src/context/maybe_utf8.rs")]),
P("P12","Response filters transform the response as a pipeline",
 "Status and headers pass all filters in order before the body starts, all content (what earlier filters emit at the beginning and end as well as what the handler sends) passes the filters after its source in order, and everything the filters put out is sent in that order. If a filter aborts, the sender gets an error with its message and what it aborted isn't sent; a silent abort only drops the content it was given.",
 ["inputs","configurations","histories"],"every list of filters, their answers, and every sequence of sends","Results depend on all combinations of filter answers at all three stages; tests have none of them.",
 ["src/response.rs"],[("filter_headers, filter_content, filter_end","src/response.rs"),("Response::send_sized, Chunked","src/response.rs")]),
P("P13","Every request is answered once, and with what the handler sent",
 "Whatever a handler does with its Response (send, drop it, turn it into a chunked or raw one, also after write errors) exactly one well-formed response is written, with the status and headers set before, and, without filters, a body of exactly the bytes that were sent: with a matching Content-Length, or chunked without one. Write calls report the number of bytes they took, and a Chunked or Raw whose connection failed reports errors and never panics.",
 ["histories","fault_sequences"],"every sequence of operations on a response and every point where the connection fails","All operation sequences and failure points; tests only use mocks that write nothing.",
 ["src/response.rs","src/server/instance.rs"],[("Response, Chunked, Raw and their Drop","src/response.rs")]),
P("P14","Context filters run in order, before any handler, until one aborts",
 "All context filters see the request in the configured order with the changes of the previous ones, and the handlers then see the result. If one aborts, no later filter or handler sees the request and the answer has exactly the status it gave; what the filters stored is available to the response filters in both cases.",
 ["inputs","configurations"],"every list of filters and every answer they give","Every length and abort position, tests have no filters.",
 ["src/server/instance.rs"],[("ServerInstance::modify_context, handle","src/server/instance.rs")]),
P("P15","Global data holds at most one value per type, the last one",
 "After any sequence of constructions and insertions, Global returns for each type the value that was inserted last for that type, and nothing for others. insert returns exactly the value it replaced.",
 ["histories"],"every sequence of insertions over any number of types","The store changes representation as it grows and uses unchecked casts; tests don't cover those sequences.",
 ["src/server/config.rs"],[("Global::get, insert, From<tuples>","src/server/config.rs")]),
P("P16","Results, options and errors are sent with the right status",
 "Sending Ok(v) answers 200 with v and Err(e) answers 500 with e, sending Some(v) sends v with the current status and None answers 404 with no body, and sending an io::Error gives its text, with status 404 if it is a NotFound error. This holds for every nesting of them, each layer applying its own rule.",
 I,"every nesting of Result, Option and sendable values","Nestings are unbounded; tests try none.",
 ["src/response.rs"],[("SendResponse impls","src/response.rs")]),
P("P17","check_path accepts no path that leaves its directory",
 "check_path accepts a path exactly if all of its components are normal ones or '.', and otherwise returns the first component that's a root, a prefix or '..'. So joining an accepted path to a directory never names something outside of it, symbolic links aside.",
 I,"every path","A security check over all paths; tests check a few.",
 ["src/file.rs"],[("check_path","src/file.rs")]),
P("P18","Host addresses convert without loss",
 "A Host made from a port, an address or address-port pair, a socket address or a string is converted to exactly that socket address (0.0.0.0 for a bare port), and port() changes the port and nothing else, for both IPv4 and IPv6 addresses with flow info and scope.",
 I,"every address and port","Tests check no IPv6 extras and few values.",
 ["src/server/config.rs"],[("Host","src/server/config.rs")]),
P("P19","Connections are closed when keep-alive would take the last threads",
 "With keep-alive configured, a response carries 'Connection: close' exactly if the number of open connections plus the configured free threads exceeds the number of threads at the time of the request, for every kind of response; without keep-alive the server never forces it. The count is that of connections started and not ended.",
 ["histories","configurations"],"every thread count, configuration and sequence of connection starts and ends","Depends on the history of connections; tests never open one.",
 ["src/server/instance.rs","src/response.rs"],[("ServerInstance::handle, on_connection_start/end","src/server/instance.rs"),("force_close in Response","src/response.rs")]),
P("P20","Links are totally ordered, consistently with their equality",
 "Links sort by method (none first, then by name) and then by path, segment by segment by label and kind, and compare as equal exactly if method and path are equal, whatever their handlers are. So sorting and deduplicating a list of links keeps one of each.",
 I,"every pair and triple of links with methods as parsed from requests","A total order is a statement about all triples.",
 ["src/context/hypermedia.rs"],[("Ord for Link","src/context/hypermedia.rs")]),
P("P21","File extensions map to the documented MIME types",
 "ext_to_mime returns for each extension in the bundled Apache list the MIME type given there, and nothing for others.",
 I,"every extension string","The table is generated at build time and tests only look at one entry.",
 ["src/file.rs","build/mime.rs"],[("ext_to_mime","src/file.rs"),("gen","build/mime.rs")]),
P("P27","content_type! makes the MIME type that was written",
 "content_type!(main / sub; name = value; ...) gives the MIME type with exactly the main type, the subtype and the parameters that were written, in that order, each by its name or as any string; a string that is the name of a known type, parameter or value gives the known one, and no string makes it panic.",
 I,"every string at every position, every number of parameters","Tests only use a few fixed literals.",
 ["src/macros.rs"],[("content_type!","src/macros.rs"),("MimeHelper","src/macros.rs")]),
P("P22","Typed parameter access agrees with the raw parameters",
 "For every key and content, get is the lossy UTF-8 text of the raw value, parse is the result of parsing that text and tells a missing parameter (None) from an invalid one (the parse error), parse_or and parse_or_else give the alternative exactly if that fails, and insert, remove, entry and collecting behave as for a map from byte strings to byte strings.",
 I,"every key, value and target type","Tests check two keys; all contents including non-UTF-8 matter.",
 ["src/context/parameters.rs"],[("Parameters","src/context/parameters.rs")]),
P("P23","Requests on different connections don't affect each other",
 "A running server answers requests arriving at the same time on different connections each as if it were alone, and stays available as long as there are free threads.",
 ["schedules"],"every interleaving of connections","Depends on thread schedules in the HTTP library and the operating system.",
 ["src/server/instance.rs"],[("ServerInstance::run","src/server/instance.rs")]),
P("P25","Handlers get each request as it was sent",
 "Unless a context filter changes it, a handler sees the method, HTTP version, peer address and all header fields of the request as they were sent (the Host field replaced by that of an absolute target), the server's global data, and no hyperlinks or variables that didn't come from a router. It reads exactly the bytes of the request's body, in order, with buffers of any size. A multipart reader is offered exactly if the content type is multipart/form-data with a boundary, and it reads that body with that boundary; a mock context has what it was made with, an empty body, and nothing else.",
 I,"every request: method, version, address, header fields, body and its framing, and read sizes","Tests use mocks without a body and never look at what arrives.",
 ["src/server/instance.rs","src/context/body.rs","src/context/mod.rs"],[("ServerInstance::handle","src/server/instance.rs"),("BodyReader","src/context/body.rs")]),
P("P26","Servers run, and responses start, as configured",
 "run, run_https and build give a server at the configured host, with the configured number of threads (5/4 of the CPUs if there is none) and keep-alive timeout, which answers with the configured handlers, filters and global data; what isn't configured has its documented default. Every response starts with the current date, the configured content type and the configured server name, which are sent unless a handler or filter changes them.",
 ["inputs","configurations"],"every configuration of a server, every request","Tests never start a server; each response has to carry the configuration, whatever its kind.",
 ["src/server/mod.rs","src/server/instance.rs"],[("Server, ServerInstance::new/run/run_https","src/server/mod.rs"),("ServerInstance::handle","src/server/instance.rs")]),
P("P24","Files are sent whole, with their type, or not at all",
 "Sending a regular file, or the path of one, answers with the file's exact bytes, its length as Content-Length and the MIME type of its extension (application/octet-stream if unknown, or what the given mapping says). If it can't be opened, or is a directory, nothing is sent and the response is handed back unchanged; handled by default, that gives 404 for a missing file and 500 for any other failure.",
 ["inputs","fault_sequences"],"every file content, extension and failure to open","Tests don't send files; contents, sizes and failures vary without bound.",
 ["src/response.rs","src/file.rs"],[("SendResponse for &Path and File, send_file_with_mime","src/response.rs"),("FileError","src/response.rs")]),
]
with open('/verif/properties.jsonl','w') as f:
    for p in L:
        assert len(p['title'])<=80,(p['id'],len(p['title']))
        n=p['statement'].count('. ')+1
        assert n<=3,(p['id'],n)
        f.write(json.dumps(p)+'\n')
