package water

# ---- C19: the logger in front of the handlers ----
# the bytes a reader will still deliver (before its end or its error)
gvar $rd arr[iface]seq[int]
# readers in front of other readers
decl multi(m: iface): bool
decl partsOf(m: iface): seq[iface]
decl nopOf(c: iface): iface
decl nop(c: iface): bool
fun rest(v: iface): seq[int] = if multi(v) then rests(partsOf(v)) else if nop(v) then rest(nopOf(v)) else $rd[v]
fun rests(q: seq[iface]): seq[int] = if len(q) == 0 then empty("int") else rest(q[0]) ++ rests(q[1:])
# what is read through a limit comes from the reader behind it
def source(v: iface): iface = if istype(v, "*io.LimitedReader") then as(unbox(v, "*io.LimitedReader"), "*io.LimitedReader").R else v
ext io/ioutil.ReadAll(src) -> b, err
  mod $rd
  ens forall v: iface {$rd[v]} :: v != source(src) ==> $rd[v] == old($rd)[v]
  ens lst(b) ++ $rd[source(src)] == old($rd[source(src)])
end
ext io.ReadAll(src) -> b, err
  mod $rd
  ens forall v: iface {$rd[v]} :: v != source(src) ==> $rd[v] == old($rd)[v]
  ens lst(b) ++ $rd[source(src)] == old($rd[source(src)])
end
ext bytes.NewReader(data) -> r
  mod $rd
  ens forall v: iface {$rd[v]} :: v != box(r) ==> $rd[v] == old($rd)[v]
  ens r != nil && fresh(r) && $rd[box(r)] == lst(data) && !multi(box(r)) && !nop(box(r))
end
ext bytes.NewBuffer(data) -> r
  mod $rd
  ens forall v: iface {$rd[v]} :: v != box(r) ==> $rd[v] == old($rd)[v]
  ens r != nil && fresh(r) && $rd[box(r)] == lst(data) && !multi(box(r)) && !nop(box(r))
end
ext io.MultiReader(readers) -> m
  ens m != nil && multi(m) && partsOf(m) == lst(readers)
end
ext io.NopCloser(nr) -> c
  ens c != nil && !multi(c) && nop(c) && nopOf(c) == nr
end
ext io/ioutil.NopCloser(nr) -> c
  ens c != nil && !multi(c) && nop(c) && nopOf(c) == nr
end
def bodyOf(ctx: *Context): iface = ctx.Request.Body

spec Logger() -> f
  opt nosafety
  opt fuel 8
  closure (ctx)
    req chainOK(ctx) && ctx.Request != nil
    # the body is not one of the readers made here
    req !multi(bodyOf(ctx)) && !nop(bodyOf(ctx))
    req istype(bodyOf(ctx), "*bytes.Reader") ==> allocated(unbox(bodyOf(ctx), "*bytes.Reader"))
    req istype(bodyOf(ctx), "*bytes.Buffer") ==> allocated(unbox(bodyOf(ctx), "*bytes.Buffer"))
    mod Context.Environ[ctx], Context.Params[ctx], Context.Request[ctx], Context.index[ctx], Context.written[ctx], Context.status[ctx], Context.parsedParams[ctx]
    mod $last[ctx], $wc, $body, $commit, $hdr, $rd, http.Request.Body[ctx.Request]
    maypanic
    ens chainOK(ctx)
    callassert [C19] water.Context.Next :: ctx == my_ctx && ctx.Request == old(ctx.Request)
    callassert [C19] water.Context.Next :: ncalls("water.Context.Next") == 1
    callassert [C19] water.Context.Next :: (bodyOf(ctx) == nil) == old(bodyOf(ctx) == nil)
    callassert [C19] water.Context.Next :: bodyOf(ctx) != nil ==> rest(via(bodyOf(ctx), "Read")) == old($rd[bodyOf(ctx)])
    callassert [C19] water.Context.Next :: ctx.written == old(ctx.written) && ctx.index == old(ctx.index)
    ens [C19] once: !old(LogClose) ==> ncalls("water.Context.Next") == 1
    ens [C19] closed: old(LogClose) && ncalls("water.Context.Next") == 0 ==> ctx.Request == old(ctx.Request) && bodyOf(ctx) == old(bodyOf(ctx)) && $rd == old($rd) && ctx.index == old(ctx.index) && ctx.written == old(ctx.written)
end
property C19 Logger
