#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (kept here because the prose is easier to edit than JSON lines).
import json, os
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=observe or ["HTTP response of App::listen over loopback","in-process dispatch through Router::search_route + EndpointExecutor"]
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
T="src/router/route_trie.rs"; R="src/router.rs"; A="src/app.rs"; C="src/context.rs"; D="src/router/req_deserializer.rs"; S="src/router/response.rs"; RS="src/router/responder.rs"
p("C01","A request runs exactly the handler its path and method select",
 "For any accepted set of registered routes and any request path, the handler that runs is the one whose pattern matches the path segment by segment: a literal segment matches only the identical whole segment, `:name` matches exactly one segment of any content, and a trailing `*` matches any non-empty remainder (and, under a literal parent at which nothing is registered, also that parent path itself). A path that something (a handler or a middleware) is registered for literally is preferred over a `*`, and otherwise the deepest `*` on the path's literal/parameter prefix is used. When nothing registered matches, or the selected path has no handler for the request's method, no handler runs and the reply is 404.",
 ["inputs","configurations","histories"],"every accepted sequence of registrations (routes, middleware, any insertion order) and every request path and method",
 "Quantifies over all route sets, insertion orders and request paths; the tests look up a handful of paths in tries of at most five routes, and never a path that crosses a segment boundary.",
 [T,R,"src/router/resource.rs",A],[("radix insertion: next-node/split-key/split-node",T+" Node::process_insertion, get_insertion_action"),("lookup with backtracking",T+" Node::get_next_node, RouteTrie::search_route"),("404 mapping",A+" AppServer::resolve_endpoint")],
 [("head","root of the compressed route trie",T+" RouteTrie")])
p("C02","Routing does not depend on the order routes were registered in",
 "Any two orders of registering the same collection of routes and path-specific middleware agree on whether the collection is accepted, and if accepted they give the same reply, run the same handler with the same parameters, and run the same set of middleware for every request. (Middleware attached to one and the same path keep their registration order.)",
 ["configurations","histories"],"every permutation of every registration collection within the bound, every request",
 "The trie's shape depends on insertion order (splits, first-child insertion); tests insert in one order only.",
 [T,R],[("node splitting and child ordering",T+" Node::process_insertion"),("ambiguity check",T+" Node::get_insertion_action")])
p("C03","Path parameters carry the exact matched text",
 "When a route with parameters is matched, each `:name` is available to the handler and to every middleware of that request under its own name with exactly the raw text of the one request segment it matched, at any depth and number of parameters; names that are not in the matched pattern are absent. Reading a parameter as a type yields the parsed value when the text parses as that type, a parameter error when it does not, and an error (never a panic) when the name is absent.",
 ["inputs","configurations"],"every pattern with any number and position of parameters, every request path, every requested type",
 "No test looks up a parameterised route at all: the parameter tests hand a ready-made map to the context.",
 [T,C],[("parameter capture on the successful search path",T+" Node::get_next_node"),("typed access",C+" Context::param")])
p("C04","Redundant slashes never change routing",
 "Leading, trailing and repeated `/` characters in a registered path, a mount path, a middleware path or a request path never matter: the registration is accepted, and the request answered (same handler, same parameters, same middleware, same static file), exactly as for the path with each segment separated by one slash.",
 ["inputs","configurations"],"every slash decoration of registered and requested paths within the bound",
 "Tests use a leading or trailing slash on a few lookups but never vary both sides or repeat slashes.",
 [T,R],[("segment splitting with empty segments dropped",T+" insert_route/insert_middleware/insert_sub_route/search_route")])
p("C05","Conflicting or malformed registrations are rejected, others accepted",
 "Registering a route panics exactly when: the same method is already registered for the same pattern; at some position a parameter segment would stand next to a different segment under the same parent path; or `*` occurs inside a longer segment or anywhere but in last position (the last two apply to middleware and mount paths as well, and a mount is also rejected where the target path already has a handler, middleware or sub-path). Every other registration is accepted, whatever else is registered: routes that merely share leading characters never conflict.",
 ["configurations","histories"],"every sequence of registrations within the bound",
 "Five should_panic tests each show one conflict; none shows that unrelated routes are not rejected, or a conflict appearing after splits.",
 [T,"src/router/resource.rs"],[("duplicate detection",T+" insert_route/insert_default_route, Resource::add_route"),("ambiguity detection",T+" get_insertion_action"),("wildcard validation",T+" insert_route/insert_middleware/insert_sub_route")],None,["panic or return of App/Router registration methods"])
p("C06","Exactly the middleware in scope runs, once, outermost first",
 "For a matched request the middleware that run are exactly those registered at the root, at each path that is a whole-segment prefix of the matched pattern, and at the matched pattern itself, each exactly once per registration; a middleware registered for any other path (a sibling, a path that only shares leading characters, a branch that was tried and abandoned) never runs. They are entered from the outermost path to the innermost, in registration order at the same path. Registering middleware is never silently ignored.",
 ["configurations","histories","inputs"],"every placement of middleware over every route set and every request within the bound",
 "Tests only count middlewares (0, 1, 2 or 3) on a single path; identity, order, and leakage between paths are never observed.",
 [T,R,A],[("middleware accumulation along the search path",T+" Node::get_next_node, RouteTrie::search_route"),("middleware insertion",T+" insert_middleware, insert_default_middleware")])
p("C07","The middleware chain nests around the handler and obeys each link",
 "Each middleware runs with everything after it suspended until it calls next: the handler runs once, and only if every middleware on the way called next; a middleware that answers or fails without calling next stops everything further in. The result of the inner part (response, context data, or error) is what the middleware gets back from next, and what the outermost middleware returns, including any response it replaced or any error it raised after the fact, decides the reply.",
 ["programs","configurations"],"every assignment of behaviours to chains of up to the bounded length and every handler outcome",
 "No test executes a middleware at all; they only count entries in a list.",
 [A,"src/middleware.rs"],[("recursive executor",A+" EndpointExecutor::next"),("result mapping",A+" AppServer::resolve_endpoint")])
p("C08","Mounting a router is the same as registering its routes under the prefix",
 "An application that mounts a router at a (wildcard-free) path, directly, through a scope or through any nesting of routers, answers every request, with the same middleware and parameters, exactly as one where each of that router's routes and middleware was registered directly with the mount path put in front (router-wide middleware becoming middleware of the mount path). Mounting never removes, replaces or silently drops anything registered before or inside it: it takes full effect or is rejected with a panic.",
 ["programs","configurations","histories"],"every nesting of routers and interleaving of mounts with other registrations within the bound",
 "One test mounts one router with one route; nesting, mounting at the root, mounting beside prefixes and registering after mounting are never tried.",
 [T,R,A],[("sub-trie grafting",T+" RouteTrie::insert_sub_route"),("scope",A+" App::scope"),("static handlers in mounted routers",R+" use_static_to/use_static")])
p("C09","Each method of a path has its own handler",
 "For any path, the handlers registered for GET, POST, PUT, PATCH and DELETE are independent: a request runs the handler registered for its own method on that path and no other, whatever subset is registered and in whatever order. A request whose method has no handler there (including HEAD, OPTIONS and unknown methods) is answered 404 without running any handler or middleware.",
 ["configurations","inputs"],"every subset and order of methods on literal, parameter, wildcard and root paths, every request method",
 "One test registers four methods on one literal path and checks the table entries, not dispatch; PATCH, HEAD and unknown methods are never requested.",
 ["src/router/resource.rs",R,A],[("method table","src/router/resource.rs Resource"),("method lookup",A+" AppServer::resolve_endpoint")])
p("C10","The client receives exactly the response that was built",
 "Whatever chain of builder calls a handler makes from any supported response value, the reply carries the last status set, the last body set, and every header set, with the last value when one name was set more than once (header names compare case-insensitively). Text values are sent byte for byte, JSON bodies are the JSON encoding of the value with an application/json content type, a value that cannot be encoded gives status 500, an absent optional text gives 404.",
 ["programs","inputs"],"every sequence of builder operations from every response type within the bound",
 "Tests check the status of four built responses and that two headers are contained in a list; no body and no emitted header is ever checked.",
 [S,RS,"src/router/response_body.rs",C,A],[("response builder",S+" Response"),("conversions",RS+" Responder impls"),("emission",A+" AppServer::resolve_endpoint"),("context builder",C+" ResponseBuilder")])
p("C11","Every handler outcome becomes the right HTTP reply",
 "A handler or middleware that returns an error yields status 500 with the error's message as body, whichever error it is and wherever in the chain it arises; one that completes without having built a response yields 200 with an empty body; and a completed response is sent as built. Errors produced by the framework's own request accessors convert into such replies, and no outcome is lost or turned into a dropped connection.",
 ["programs","fault_sequences"],"every outcome at every position of the chain, for every error kind",
 "The one end-to-end test covers a single successful handler.",
 [A,"src/error/obsidian_error.rs"],[("outcome mapping",A+" AppServer::resolve_endpoint"),("error text","src/error/obsidian_error.rs Display")])
p("C12","Body decoding does not depend on how the body arrives",
 "For any request body, reading it as JSON or as a form gives the result of decoding the complete body, however it is split into chunks and however delivery is delayed between them, at any size. If the body ends early or the transport fails at any point, the read returns an error and never a value decoded from part of the body.",
 ["inputs","fault_sequences","schedules"],"every division of a body into chunks, every placement of delays, every truncation or failure point",
 "All tests use single-chunk in-memory bodies of at most a few dozen bytes; delivery in several chunks and failures are never exercised.",
 [C],[("body aggregation",C+" Context::form, Context::json")],None,["handler result over HTTP chunked bodies and Context::json/form on scripted bodies"])
p("C13","Query strings and forms decode to the values that were sent",
 "For any query string or form body, decoding into a structure gives each field the percent/plus-decoded values sent under its name: a scalar takes the first, a list takes all in order of appearance, an optional is absent exactly when nothing was sent; pairs with an empty value count as not sent, unknown names are ignored, and the order of different names is irrelevant. Decoding succeeds exactly when every required field was sent and every taken value parses as its type, returns an error otherwise, and never panics; a query and a form body with the same text decode alike.",
 ["inputs"],"every sequence of key/value pairs over the alphabet up to the bounded length, for every target shape",
 "Tests decode about ten fixed well-formed strings; escapes, empties, repeats in other orders, malformed numbers and unknown names are hardly sampled.",
 [C,D],[("pair merging",C+" Context::parse_queries"),("typed decoding",D+" FormDeserializer/FormValueDeserializer/FromSeq/FromMap")],None,["Context::query_params, Context::form, handler replies"])
p("C14","The public form-map decoder is total and loses nothing",
 "Decoding any map from names to lists of strings, including empty lists and empty strings, into any supported shape returns a value or an error and never panics. A list field receives exactly one element per string in order (an empty string being an absent optional in a list of optionals), a scalar receives the first string, and a missing or empty list is an error for a required scalar.",
 ["inputs"],"every map over the alphabet with lists up to the bounded length, for every target shape",
 "Tests decode five fixed maps, none with an empty list, an empty string or an optional.",
 [D],[("sequence access",D+" FromSeq"),("optional handling",D+" deserialize_option")],None,["from_cow_map"])
p("C15","A request body is consumed exactly once",
 "The first read of the body in a request, in a middleware or in the handler, as raw body, JSON or form, gets the whole body; every later read in the same request sees an empty body and not an error, a panic or a repetition. Reads that do not touch the body (query, parameters, headers, method, path, context data) never consume or change it, and are not affected by its consumption.",
 ["programs","histories"],"every sequence of accessor calls within the bound, spread over middleware and handler",
 "Each test performs one read on a fresh context.",
 [C],[("body replacement",C+" Context::take_body, form, json")])
p("C16","Static serving never leaves its directory",
 "For any request path whatsoever, including `.`/`..` segments, encoded dots and slashes, backslashes and repeated slashes, a static route never replies with content of a file outside the directory it was registered for. This holds for both static registration forms, for nested mounts and at every path depth.",
 ["inputs"],"every request path of hostile and ordinary segments up to the bounded length, each static registration form",
 "Static serving has no tests.",
 [R,S],[("path construction",R+" static handlers"),("file read",S+" Response::file")],None,["response bodies over raw HTTP in a scratch directory"])
p("C17","Static files are served byte for byte",
 "A GET for a path under a static route answers 200 with exactly the bytes of the file at that relative path under the registered directory, whatever its content (binary, empty, large), depth or way of registration, including when the router holding the static route is mounted elsewhere; a path that names no file answers 404. Building a response from a file path behaves the same.",
 ["inputs","configurations"],"every file of the enumerated tree, contents over all byte values and sizes, each registration form and mount depth",
 "Static serving and file responses have no tests.",
 [R,S],[("static handlers",R+" use_static_to/use_static"),("file read",S+" Response::file, "+C+" Context::build_file")])
p("C18","Every request starts from the configured application state",
 "When application state is set, every handler and every middleware of every request can read it and initially sees exactly the last state set, on every connection and after any number of requests; changes a request makes to its copy are visible only within that request. Without configured state, or for other types, nothing is found.",
 ["histories","schedules","configurations"],"every history of reading/modifying requests over several connections within the bound",
 "The only end-to-end test passes no state.",
 [A,C],[("state cloning per connection and request",A+" App::listen"),("injection",A+" AppServer::resolve_endpoint, Context::add")])
p("C19","Concurrent requests do not influence each other",
 "For any set of requests in flight at the same time, on separate connections or multiplexed on one, and any interleaving of their progress, each gets exactly the reply, parameters, body, context data, state and middleware sequence it would get alone. No request waits for another one that is suspended.",
 ["schedules"],"all interleavings of the await points of up to the bounded number of concurrent requests",
 "Tests run one request at a time on one task.",
 [A,C,T],[("per-request context and executor",A+" AppServer::resolve_endpoint, EndpointExecutor"),("shared router",A+" AppServer")])
p("C20","The default logger only observes",
 "Adding the logger, by default construction or explicitly and at any level, changes nothing about any request's outcome: same status, headers and body, same handler and middleware effects, same error, same empty reply when no response was built.",
 ["programs","configurations"],"every handler outcome and chain shape with and without the logger at each position",
 "The logger is only ever counted in a list by tests, never run.",
 ["src/middleware/logger.rs",A],[("logger","src/middleware/logger.rs Logger::handle"),("default app",A+" App::default")])
p("C21","One request's failure never harms another",
 "After any sequence of good, failing, panicking, malformed or cut-off requests on any number of connections, every other connection and every later request is served exactly as on a fresh server. Successive requests on one connection are answered completely, in order, and independently of what was requested before, however many there are.",
 ["fault_sequences","histories"],"every sequence of connection events over the alphabet up to the bounded depth",
 "Tests never start the server.",
 [A],[("per-connection service and server clone",A+" App::listen")])
p("C22","Context data is a per-request typed slot store",
 "A value put into the request context is visible to everything that runs later in the same request, further in and, on the way out, further out, until replaced; there is one slot per type, the last value put wins, in-place changes persist, and other types are unaffected. A new request starts without any such values except the application state.",
 ["programs","histories"],"every sequence of put/get/modify operations over types spread over middleware and handler within the bound",
 "No test puts data into a context.",
 [C,A],[("extensions",C+" Context::add/get/get_mut")])
p("C23","An abandoned request leaves no trace",
 "If a client disconnects or a request's processing is dropped at any point of its progress (while the body is arriving, inside any middleware, or in the handler), nothing of it is observable afterwards: requests in flight and later requests get the replies they would get had it never been made, and the code after the abandoned point does not run on another request's behalf.",
 ["crash_points","schedules"],"every cancellation point of every interleaving within the bound",
 "Tests always drive a request to completion.",
 [A,C],[("drop of the in-flight context and executor",A+" AppServer::resolve_endpoint")])
here=os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here,"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
