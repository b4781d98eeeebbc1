package water

# ---- what was sent through a response writer (ghost history per writer) ----
gvar $wc arr[iface]seq[int]
gvar $body arr[iface]seq[int]
gvar $commit arr[iface]mapv[string]seq[string]
# highest handler started for the request a context serves, plus one
gvar $last arr[ref]int

ext net/http.ResponseWriter.WriteHeader(w, code)
  mod $wc[w], $commit[w]
  ens $wc[w] == old($wc[w]) ++ unit(code)
  ens $commit[w] == (if len(old($wc[w])) == 0 then $hdr[hdrOf(w)] else old($commit[w]))
end
ext net/http.ResponseWriter.Write(w, p) -> n, err
  req [C10] status_first: len($wc[w]) > 0
  mod $body[w]
  ens $body[w] == old($body[w]) ++ lst(p)
end

# the state of a context that serves a request
def ctxOK(ctx: *Context): bool = ctx != nil && ctx.ResponseWriter != nil
  && $wc[ctx.ResponseWriter] == (if ctx.written then unit(ctx.status) else empty("int"))
  && (!ctx.written ==> ctx.status == 0)

spec Context.WriteHeader(ctx, code)
  req ctxOK(ctx)
  mod Context.written[ctx], Context.status[ctx], $wc[ctx.ResponseWriter], $commit[ctx.ResponseWriter]
  ens ctxOK(ctx) && ctx.written
  ens old(ctx.written) ==> ctx.status == old(ctx.status) && $commit[ctx.ResponseWriter] == old($commit[ctx.ResponseWriter])
  ens !old(ctx.written) ==> ctx.status == code && $commit[ctx.ResponseWriter] == $hdr[hdrOf(ctx.ResponseWriter)]
end
spec Context.Write(ctx, data) -> n, err
  req ctxOK(ctx)
  mod Context.written[ctx], Context.status[ctx], $wc[ctx.ResponseWriter], $commit[ctx.ResponseWriter], $body[ctx.ResponseWriter], $hdr[hdrOf(ctx.ResponseWriter)]
  ens ctxOK(ctx) && ctx.written
  ens old(ctx.written) ==> ctx.status == old(ctx.status) && $commit[ctx.ResponseWriter] == old($commit[ctx.ResponseWriter]) && $hdr[hdrOf(ctx.ResponseWriter)] == old($hdr[hdrOf(ctx.ResponseWriter)])
  ens !old(ctx.written) ==> ctx.status == 200
  ens $body[ctx.ResponseWriter] == old($body[ctx.ResponseWriter]) ++ lst(data)
end
spec Context.Written(ctx) -> r
  req ctxOK(ctx)
  ens r == ctx.written
  ens [C10] r <==> len($wc[ctx.ResponseWriter]) > 0
end
spec Context.Status(ctx) -> r
  req ctxOK(ctx)
  ens r == ctx.status
  ens [C10] r == (if len($wc[ctx.ResponseWriter]) > 0 then $wc[ctx.ResponseWriter][0] else 0)
end

# ---- handler chains ----
def chainOK(ctx: *Context): bool = ctxOK(ctx) && ctx.index >= 0 && ctx.handlersLength == len(ctx.handlers)
  && (forall i: int {ctx.handlers[i]} :: 0 <= i && i < len(ctx.handlers) ==> ctx.handlers[i] != nil)
# while a handler runs: everything before it was started, nothing after it
def running(ctx: *Context): bool = $last[ctx] <= ctx.index + 1
  && (!ctx.written ==> $last[ctx] == (if ctx.index + 1 <= ctx.handlersLength then ctx.index + 1 else ctx.handlersLength))
# between handlers
def between(ctx: *Context): bool = $last[ctx] <= ctx.index
  && (!ctx.written ==> $last[ctx] == (if ctx.index <= ctx.handlersLength then ctx.index else ctx.handlersLength))
def allRan(ctx: *Context): bool = !ctx.written ==> ctx.index >= ctx.handlersLength && $last[ctx] == ctx.handlersLength

# any handler: user code that uses the context through its methods
ext water.Handler.ServeHTTP(h, ctx)
  req ok: chainOK(ctx)
  req [C07] current: ctx.index < ctx.handlersLength && h == ctx.handlers[ctx.index]
  req [C07] once: $last[ctx] <= ctx.index
  req [C07] order: !ctx.written ==> $last[ctx] == ctx.index
  mod Context.Environ[ctx], Context.Params[ctx], Context.Request[ctx], Context.index[ctx], Context.written[ctx], Context.status[ctx], Context.parsedParams[ctx]
  mod $last[ctx], $wc, $body, $commit, $hdr
  maypanic
  ens chainOK(ctx)
  ens old(ctx.written) ==> ctx.written && ctx.status == old(ctx.status)
  ens [C07] ctx.index >= old(ctx.index) && $last[ctx] >= old(ctx.index) + 1 && running(ctx)
  ens [C07] !ctx.written ==> ctx.index == old(ctx.index) || ctx.index >= ctx.handlersLength
  onpanic chainOK(ctx)
  onpanic old(ctx.written) ==> ctx.written && ctx.status == old(ctx.status)
end

spec Context.run(ctx)
  req chainOK(ctx)
  req [C07] between(ctx)
  mod Context.Environ[ctx], Context.Params[ctx], Context.Request[ctx], Context.index[ctx], Context.written[ctx], Context.status[ctx], Context.parsedParams[ctx]
  mod $last[ctx], $wc, $body, $commit, $hdr
  maypanic
  ens chainOK(ctx)
  ens old(ctx.written) ==> ctx.written && ctx.status == old(ctx.status)
  ens [C07] ctx.index >= old(ctx.index) && $last[ctx] >= old($last[ctx]) && $last[ctx] <= ctx.index && allRan(ctx)
  callassert [C07] water.Handler.ServeHTTP :: ctx.written ==> ctx.index == old(ctx.index)
  onpanic chainOK(ctx)
  onpanic old(ctx.written) ==> ctx.written && ctx.status == old(ctx.status)
  inv chainOK(ctx)
  inv old(ctx.written) ==> ctx.written && ctx.status == old(ctx.status)
  inv ctx.index >= old(ctx.index) && $last[ctx] >= old($last[ctx])
  inv between(ctx)
  inv ctx.written ==> ctx.index == old(ctx.index)
end
spec Context.Next(ctx)
  req chainOK(ctx)
  req [C07] running(ctx)
  mod Context.Environ[ctx], Context.Params[ctx], Context.Request[ctx], Context.index[ctx], Context.written[ctx], Context.status[ctx], Context.parsedParams[ctx]
  mod $last[ctx], $wc, $body, $commit, $hdr
  maypanic
  ens chainOK(ctx)
  ens old(ctx.written) ==> ctx.written && ctx.status == old(ctx.status)
  ens [C07] ctx.index >= old(ctx.index) && $last[ctx] >= old($last[ctx]) && $last[ctx] <= ctx.index && allRan(ctx)
  onpanic chainOK(ctx)
  onpanic old(ctx.written) ==> ctx.written && ctx.status == old(ctx.status)
end
property C07 Context.run Context.Next
property C10 Context.WriteHeader Context.Write Context.Written Context.Status
