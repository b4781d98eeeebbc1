package water

pures net/http.Request.ProtoAtLeast
def midx(m: string): int = if m == "GET" then 0 else if m == "POST" then 1 else if m == "DELETE" then 2 else if m == "PUT" then 3 else if m == "PATCH" then 4 else if m == "HEAD" then 5 else if m == "OPTIONS" then 6 else -1
spec MethodIndex(method) -> r
  ens r == midx(method)
  ens r == mi(method)
end

# ---- the pool hands out contexts nobody else uses ----
gvar $cur ref
ext sync.Pool.Get(p) -> v
  mod $last, $cur
  ens istype(v, "*Context") && unbox(v, "*Context") != nil
  ens $last[unbox(v, "*Context")] == 0 && $cur == unbox(v, "*Context")
end
ext sync.Pool.Put(p, v)
  req [C09] typed: istype(v, "*Context") && unbox(v, "*Context") == $cur && $cur != nil
  mod $cur
  ens $cur == nil
end

# ---- a built engine ----
def handlersOK(): bool = forall m: *node, i: int {m.handlers[i]} :: m != nil && 0 <= i && i < len(m.handlers) ==> m.handlers[i] != nil
def tableOK(e: *Engine): bool = forall i: int, p: string {e.routersStatic[i][p]} :: 0 <= i && i < 8 && e.routersStatic[i][p] != nil ==> e.routers[i] != nil && e.routersStatic[i][p] == mNext(e.routers[i], trimSlash(p))
def engineOK(e: *Engine): bool = e != nil && e.options != nil && nodesOK() && handlersOK() && tableOK(e)
  && (forall i: int {e.options.NoFoundHandlers[i]} :: 0 <= i && i < len(e.options.NoFoundHandlers) ==> e.options.NoFoundHandlers[i] != nil)

def refused(r: *http.Request): bool = !net/http.Request.ProtoAtLeast(r, 1, 1) || r.RequestURI == "*" || r.Method == "CONNECT"
def selected(e: *Engine, r: *http.Request): *node = if midx(r.Method) < 0 || e.routers[midx(r.Method)] == nil then nil else mNext(e.routers[midx(r.Method)], trimSlash(r.URL.Path))
def chain(e: *Engine, r: *http.Request): []Handler = if selected(e, r) == nil then e.options.NoFoundHandlers else selected(e, r).handlers
def runs(e: *Engine, r: *http.Request): bool = !refused(r) && midx(r.Method) >= 0 && (selected(e, r) != nil || len(e.options.NoFoundHandlers) > 0)

spec Engine.ServeHTTP(e, rw, req)
  opt fuel 0
  req engineOK(e) && rw != nil && req != nil && req.URL != nil
  req $wc[rw] == empty("int")
  mod Context.Environ[*], Context.Params[*], Context.Request[*], Context.ResponseWriter[*], Context.handlers[*], Context.handlersLength[*], Context.index[*], Context.written[*], Context.status[*], Context.endNode[*], Context.parsedParams[*]
  mod $last, $wc, $body, $commit, $hdr, $cur
  maypanic
  ens [C08] s406: refused(req) ==> $wc[rw] == unit(406)
  ens [C08] s405: !refused(req) && midx(req.Method) < 0 ==> $wc[rw] == unit(405)
  ens [C08] s404: !refused(req) && midx(req.Method) >= 0 && !old(runs(e, req)) ==> $wc[rw] == unit(404)
  ens [C08] ran: ncalls("water.Context.run") == (if old(runs(e, req)) then 1 else 0)
  ens [C09] returned: ncalls("sync.Pool.Put") == ncalls("sync.Pool.Get")
  callassert [C08] water.Context.run :: ctx.handlers == chain(e, req) && ctx.endNode == selected(e, req)
  callassert [C08] water.Context.run :: ctx.index == 0 && ctx.handlersLength == len(chain(e, req))
  callassert [C09] water.Context.run :: ctx == $cur && ncalls("sync.Pool.Put") == 0
  callassert [C09] water.Context.run :: ctx.Request == req && ctx.ResponseWriter == rw
  callassert [C09] water.Context.run :: mapval(ctx.Environ) == emptymap("mapv[string]any") && ctx.Environ != nil && isnew(ctx.Environ)
  callassert [C09] water.Context.run :: !ctx.written && ctx.status == 0 && !ctx.parsedParams && ctx.index == 0
  callassert [C09] water.Context.run :: ctx.endNode == selected(e, req) && ctx.handlers == chain(e, req) && ctx.handlersLength == len(ctx.handlers)
  callassert [C09] water.Context.run :: ctx.Params != nil ==> isnew(ctx.Params) && mapval(ctx.Params) == (if selected(e, req) == nil then emptymap("mapv[string]string") else pNext(e.routers[midx(req.Method)], trimSlash(req.URL.Path), 0, emptymap("mapv[string]string")))
end
property C08 MethodIndex Engine.ServeHTTP
property C09 Engine.ServeHTTP
property C07 Engine.ServeHTTP
property C10 Engine.ServeHTTP
property C22 Engine.ServeHTTP
