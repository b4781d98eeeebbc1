#!/usr/bin/env python3
# Source of /verif/properties.jsonl (kept as a script so the long text is reviewable).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=mech,observe_at=observe or [],hook_needed=None)))
def m(name,where): return dict(name=name,where=where)

p("C01","Route resolution precedence and backtracking",
 "For every routing tree built from registered routes and every request path, the route chosen at each path segment is the first that can complete the match, trying static segments before regexp segments before named holders before match-alls and same-kind siblings in registration order; when the rest of the path cannot be matched below one candidate, the next one is tried. A route is found exactly when some route registered for that method matches the path (one leading and one trailing slash of the path being ignored), and a match-all at the end of a route matches all remaining segments.",
 ["inputs","programs"],"every routing tree (any shape, depth, fan-out, patterns) and every path string",
 "The tests match nine fixed paths against one- or two-route trees; precedence, ties and backtracking need arbitrary trees and paths.",
 ["tree.go"],[m("(*node).Match/matchNextSegment/matchEndNode/matchSubNode","tree.go")],
 [dict(name="node.subNodes/endNodes",meaning="children in match order",where="tree.go")],["selected route, FullPath()"])
p("C02","URL parameters are exactly the matched route's captures",
 "When a request matches a route, its parameters map every named holder to its segment, every regexp name to its capture group, every named match-all to the text it covers and every unnamed match-all to \"*N\" (N = number of match-all segments before it), with the exact matched text as value. Nothing captured while trying a candidate that was then abandoned is reported, and a wildcard named \"_\" is never reported.",
 ["inputs","programs"],"every routing tree and every path string",
 "Tests look at single-branch trees, where no candidate is ever abandoned; leaks need two branches and a path that fails late in the first.",
 ["tree.go","params.go"],[m("parameter writes of the match functions","tree.go")],
 [dict(name="Params",meaning="captures of the current request",where="context.go")],["ctx.Params, ctx.Param"])
p("C03","Adding a route keeps every other route and the match order",
 "Registering a route adds exactly one end point carrying that route's handlers (or finds the existing end point with the same pattern), and leaves every previously registered segment and end point in place with its pattern, handlers and relative order. Siblings always stay ordered by kind (static, regexp, holder, match-all) and by registration order within a kind, with no two siblings of the same pattern.",
 ["inputs","histories"],"every sequence of registrations, at every node of the tree",
 "Tests register one fixed list of routes and print it; insertion position and preservation must hold for every sequence.",
 ["tree.go","engine.go"],[m("(*node).add/addNextSegment/addEndNode/addSubNode/newNode","tree.go"),m("(*Engine).buildTree","engine.go")])
p("C04","Route patterns are parsed and classified faithfully",
 "Every segment pattern is classified as static, regexp (\"<names ~ expr>\"), holder (\"<name>\", \"<name:type>\", \":name\") or match-all (\"*\", \"*name\"), and the wildcard names are exactly the comma-separated, space-trimmed names written before the first ':' or '~'. A regexp segment uses exactly the expression between '~' and the closing '>', is accepted only when it can yield one capture per name, and malformed segments (misplaced or unbalanced angle brackets, surrounding spaces) are rejected with a panic at registration.",
 ["inputs","programs"],"every pattern string",
 "Tests use about ten well-formed patterns; the parser takes arbitrary strings.",
 ["tree.go","router.go"],[m("getparsedPattern, partternRegexp, analyzePattern, getWildcards","tree.go"),m("_VariantUri","router.go")])
p("C05","Handler chains follow the scope of registration",
 "The chain of a route is the root's Before handlers, then the Use middleware of every enclosing router from the root inward, then the route's own handlers, each in registration order; middleware given to a group applies to the routes of that group and to no sibling outside it. The route's full path is the concatenation of the trimmed patterns of its enclosing groups and its own, and building one route's chain never alters another's.",
 ["programs","histories"],"every router tree (any nesting, any middleware) and every order of registration",
 "The tests print counts for one nesting; order and isolation of chains must hold for all nestings.",
 ["router.go","engine.go"],[m("getRoute, dumpRoute, (*Router).Group/Use/Before/handle","router.go"),m("newHandlers","engine.go")])
p("C06","Invalid registrations are rejected, valid ones all served",
 "Building an engine panics on a nil or unsupported handler, on a route without any handler, on two routes with the same method and path, and on a path that does not start with '/' or ends with '/' (other than \"/\" itself); it never panics on a valid set of routes. Every registration verb registers exactly its own HTTP method, and ANY registers every supported method except those in MethodAnyExclude.",
 ["programs","inputs"],"every set of registrations",
 "Tests only build valid engines; rejection paths and ANY's exclusion are never asserted.",
 ["router.go","engine.go","util.go"],[m("(*routeStore).add, (*Router).handle/ANY/Handler","router.go"),m("newHandler","engine.go"),m("checkSplitPattern, MethodIndex","util.go, router.go")])
p("C07","Handlers run in order, at most once, until one responds",
 "While a request is served its handlers are started in chain order, no handler is started twice however often Next is called, and if nobody responds every handler runs. Once a handler has returned with the response written, no later handler is started unless some handler explicitly calls Next.",
 ["histories","programs"],"every chain of handlers and every sequence of Next/WriteHeader/Write calls they make",
 "Tests run one middleware that calls Next once; the guarantee is over arbitrary handler behaviour.",
 ["context.go"],[m("(*Context).run, (*Context).Next","context.go")],
 [dict(name="Context.index",meaning="position in the chain",where="context.go")])
p("C08","Requests are dispatched by protocol, method and path",
 "A request below HTTP/1.1, with request URI \"*\" or method CONNECT gets 406 and one with any other unsupported method gets 405, without running any handler. Otherwise the handlers of the route that the tree of exactly that method selects for the request path run; when none is selected the configured not-found handlers run (preceded by the Before handlers), or 404 is sent if there are none, and enabling the static-route table changes no outcome.",
 ["inputs","configurations"],"every request and every engine configuration",
 "Tests send a handful of GET/POST requests; methods, protocols and option combinations are not covered.",
 ["engine.go","router.go","option.go"],[m("(*Engine).ServeHTTP, buildTree, isStaticRoute","engine.go"),m("MethodIndex, (*Router).Handler","router.go")])
p("C09","No state of one request reaches another",
 "Whatever earlier requests did with the recycled request context, a new request starts with its own request and response writer, an empty environment, no status, unwritten, unparsed form, its own chain from the start, and only its own URL parameters.",
 ["histories","inputs"],"every history of earlier requests and every next request, with every option",
 "Tests never serve two requests through one recycled context; leakage depends on the previous request.",
 ["engine.go","context.go"],[m("(*Context).reset, (*Engine).ServeHTTP","context.go, engine.go")])
p("C10","The response status is committed once and reported truthfully",
 "At most one status line is sent through a request context; the first code given wins, later ones are ignored, a body write without a status commits 200 first, and body bytes are passed on unchanged and in order. Written and Status report exactly what was sent, also when files are served through the context.",
 ["histories","inputs"],"every sequence of WriteHeader, Write, helper and file-serving calls",
 "Tests use single writes on a recorder; double commits and bypasses are not asserted.",
 ["context.go","content.go","m_static.go"],[m("(*Context).WriteHeader/Write","context.go"),m("Abort, File, ServeFile, Stream","content.go")])
p("C11","Response helpers send their status, content type and body",
 "String, Data, HTMLRaw, JSON, XML and the default HTML renderer commit the given status with the content type they stand for already set in the header at that moment, and then write exactly the given (or encoded) body; encoding errors are returned. Redirect and error helpers commit exactly the status they are named for.",
 ["inputs"],"every status, value, and prior header state",
 "Tests check a status code on a recorder, which also shows headers set too late to be sent.",
 ["content.go","render.go"],[m("String, Data, HTMLRaw, JSON, XML, MovedPermanently, Found, NotModified, BadRequest, ...","content.go"),m("defaultRender.HTMLSet","render.go")])
p("C12","A panicking handler becomes a 500, never an escaped panic",
 "With the Recovery middleware installed, a panic in any later handler never escapes to the server: if nothing was sent yet the response gets status 500, if a response was already started its status is kept, and no further handler runs. When no handler panics and none responds, the response is 200.",
 ["fault_sequences","programs"],"every handler chain and every point at which a later handler may panic",
 "No test panics inside a handler.",
 ["m_recovery.go","context.go"],[m("Recovery","m_recovery.go")])
p("C13","CORS answers follow the configured policy",
 "For every request, the allowed-origin answer is the first configured origin that is \"*\" or equals the request's Origin (empty when there is none), Vary always lists Origin, and credentials, exposed headers, allowed methods/headers and max-age are announced exactly as configured and only in the kind of response (simple or preflight) they belong to. Preflight (OPTIONS) requests are answered 204 without running later handlers; every other request continues down the chain.",
 ["inputs","configurations"],"every CORS configuration and every request",
 "No test exercises the CORS middleware.",
 ["m_cors.go"],[m("CORS","m_cors.go")])
p("C14","Static file serving stays inside the configured file system",
 "A static route only ever delivers content opened from its configured file system under the matched path (or the configured index file below it), for GET and HEAD alike; a path that cannot be opened gives 404 and a directory without trailing slash is redirected to the slash form. With ETags enabled, the tag identifies modification time and size (and name for type 2), and a matching If-None-Match is answered 304 without content.",
 ["inputs","configurations"],"every request path, file system and static option",
 "The tests fetch two existing files with the working directory as root, where serving from the wrong root is invisible.",
 ["m_static.go","util.go"],[m("(*Router).StaticAdvance/Static/StaticFile","m_static.go"),m("GenerateETag/GenerateETag2","util.go")])
p("C15","Typed accessors agree with parsing the raw value",
 "Every typed accessor for URL parameters, query/form values and cookies returns exactly what strictly parsing the raw value (trimmed for query/form) as that type gives, with the documented zero or error on failure; defaults are used exactly when the name is absent, arrays keep all values in order, and maps collect exactly the key[sub] entries. Asking for an absent URL parameter panics.",
 ["inputs"],"every name, value and default",
 "Only a few accessors are touched by tests, with well-formed values.",
 ["params.go","query.go","cookie.go"],[m("Params.*","params.go"),m("(*Context).Query*, DefaultQuery*","query.go"),m("(*Context).Cookie*","cookie.go")])
p("C16","The decoder is chosen by method and content type and always validates",
 "A request is bound as form for GET, as multipart form for POST, PUT and PATCH with multipart/form-data, as JSON or XML for their content types (parameters after the media type ignored), and as form otherwise. Binding reports success only if decoding succeeded and, when a validator is set, validation of the decoded object then succeeded; decoding and validation errors are returned to the caller.",
 ["inputs","configurations"],"every method, content type, body and target object",
 "Tests try a few combinations with the default validator.",
 ["binding/binding.go","binding/form.go","binding/json.go","binding/xml.go","binding/query.go","binding/header.go","binding/uri.go","content.go","binding/validator.go"],[m("NewBindinger, *.Bind, validate","binding/*.go"),m("(*Context).Bind/BindWith","content.go"),m("(*validatorV10).ValidateStruct","binding/validator.go")])
p("C17","Bound scalar values equal the submitted text or an error is returned",
 "When binding a form, query, header or URI value into a scalar field succeeds, the field holds exactly the value the text denotes: a number that does not fit the field's type, or text that is not a valid value, is an error and never silently truncated, and a submitted value overrides what the field held before. Empty text binds the zero value of numbers, booleans and strings, a default from the tag is used exactly when the name is absent, and slices receive all values in order.",
 ["inputs","programs"],"every field kind and every submitted text",
 "Tests bind small in-range values such as 9; range and override behaviour needs arbitrary texts.",
 ["binding/map_form.go","binding/mapping.go"],[m("setWithProperType2, tryToSetValue2","binding/map_form.go"),m("setWithProperType, set*Field, setByForm, setSlice, setArray","binding/mapping.go")])
p("C18","Binding touches only the fields it is meant to and never crashes",
 "Form binding never modifies unexported fields, fields excluded with the tag \"-\" (nor anything inside them), or the value of fields whose name is neither submitted nor defaulted (nil pointers to nested structs may be allocated), and uses the name before the first comma of the tag. Nil or non-pointer targets, nil values inside validated objects and empty value lists give an error or are skipped; they never cause a panic.",
 ["inputs","programs"],"every target object and every submitted form",
 "Tests use a few fixed structs with present, non-empty values.",
 ["binding/map_form.go","binding/mapping.go","binding/validator.go"],[m("MapForm, _mapForm, tryToSetValue2, parseFormName, setFormMap2","binding/map_form.go"),m("ValidateStruct","binding/validator.go")])
p("C19","Logging is transparent to the handlers",
 "The Logger middleware passes every request on exactly once and leaves the full request body, of any size, readable by later handlers; with logging closed it does nothing but let the chain continue.",
 ["inputs","configurations"],"every request body, content type and logger setting",
 "No test reads a body behind the logger; the loss needs a body beyond the logger's own limit.",
 ["m_logger.go"],[m("Logger","m_logger.go")])
p("C20","Cookies carry exactly the requested attributes",
 "SetCookie emits exactly one Set-Cookie entry, added to those already present, with the given name and value, max-age, path (\"/\" unless a non-empty one is given), domain, secure, http-only and same-site attributes taken from the corresponding optional argument and from no other. Arguments of the wrong type leave the attribute at its default, except that any non-nil secure argument that is not a bool means secure.",
 ["inputs"],"every name, value and list of optional arguments of any dynamic type",
 "No test calls SetCookie.",
 ["cookie.go"],[m("(*Context).SetCookie","cookie.go")])
p("C21","Request metadata helpers report the request faithfully",
 "The client address is X-Real-IP if present, else the first entry of X-Forwarded-For, else the remote address without its port; the protocol is X-Forwarded-Proto when it is http or https, else https exactly for TLS requests. Content type excludes parameters, and Ajax, websocket, user agent and header helpers reflect the corresponding request headers.",
 ["inputs"],"every combination of request headers, TLS state and remote address",
 "No test covers these helpers.",
 ["util.go","content.go"],[m("requestRealIp, requestProxy, filterFlags","util.go"),m("Protocol, ContentType, IsAjax, IsWebsocket, UserAgent","content.go")])
p("C22","Serving requests never changes the routing state",
 "Handling a request reads but never modifies the engine, the routing trees, the static-route table, the options or the registered handler chains, so any number of requests may be served at the same time and each sees the routes as built.",
 ["schedules","histories","inputs"],"every request and every engine",
 "Interleavings cannot be enumerated by tests; the property is decided by the write footprint of the serving code.",
 ["engine.go","tree.go","context.go"],[m("ServeHTTP, Match*, run","engine.go, tree.go, context.go")])
p("C23","Request environment entries are written once and read exactly",
 "Storing a value under a new name makes exactly that value retrievable under that name and leaves all other names as they were; storing under an existing name panics and changes nothing, reading an absent name panics, and the tolerant lookup reports presence truthfully.",
 ["inputs","histories"],"every environment state, name and value",
 "No test covers the environment.",
 ["environ.go"],[m("Environ.*, (*Context).Set/Get/GetMaybe","environ.go")])
p("C24","File download, upload and disposition helpers",
 "Download and Attachment announce the disposition asked for (attachment unless inline is requested) with the file name percent-encoded, serve exactly the opened content, and Download returns an error without sending anything when the file cannot be opened or is a directory. SaveUploadedFile copies the whole upload to the destination, replacing what was there, and returns any error of opening or copying.",
 ["inputs","fault_sequences"],"every file name, option and file-system outcome",
 "No test covers these helpers.",
 ["content.go","util.go"],[m("Download, Attachment, SaveUploadedFile","content.go"),m("contentDisposition","util.go")])
p("C25","Multipart memory limit and engine options take effect as given",
 "The multipart memory limit is the configured one and the 32 MB default when none is configured, for form parsing and binding alike. Each option changes exactly its own setting.",
 ["configurations"],"every list of options",
 "Tests never look at the limit or at combinations of options.",
 ["option.go","router.go","binding/form.go","content.go"],[m("With* options, (*Router).Handler, SetMultipartMemory","option.go, router.go, binding/form.go")])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,x['title']
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
