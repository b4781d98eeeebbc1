package water

# ---- handlers as given at registration ----
def isHandler(v: any): bool = istype(v, "Handler") || istype(v, "func(*Context)") || istype(v, "http.Handler") || istype(v, "func(http.ResponseWriter, *http.Request)")
fun hasBad(q: seq[any]): bool = exists i: int :: 0 <= i && i < len(q) && !isHandler(q[i])
# what a registered value was turned into (for foreign handlers: a function calling it, see the
# contract of that function)
decl wrapped(h: Handler): any
def adapts(h: Handler, v: any): bool = h != nil
  && (if istype(v, "Handler") then h == v
      else if istype(v, "func(*Context)") then h == box(as(unbox(v, "func(*Context)"), "HandlerFunc"))
      else wrapped(h) == v)

fun adaptsAll(a: seq[Handler], q: seq[any]): bool = len(a) == len(q) && (forall i: int {a[i]} :: 0 <= i && i < len(a) ==> adapts(a[i], q[i]))

ext net/http.Handler.ServeHTTP(fh, fw, fr)
  req istype(fw, "*Context") ==> ctxOK(unbox(fw, "*Context"))
  mod Context.written[unbox(fw, "*Context")], Context.status[unbox(fw, "*Context")], $wc, $commit, $body, $hdr
  maypanic
  ens istype(fw, "*Context") ==> ctxOK(unbox(fw, "*Context"))
  ens istype(fw, "*Context") && old(unbox(fw, "*Context").written) ==> unbox(fw, "*Context").written && unbox(fw, "*Context").status == old(unbox(fw, "*Context").status)
  onpanic istype(fw, "*Context") ==> ctxOK(unbox(fw, "*Context"))
  onpanic istype(fw, "*Context") && old(unbox(fw, "*Context").written) ==> unbox(fw, "*Context").written && unbox(fw, "*Context").status == old(unbox(fw, "*Context").status)
end
ext dyn:func(http.ResponseWriter, *http.Request)(fh, fw, fr)
  req istype(fw, "*Context") ==> ctxOK(unbox(fw, "*Context"))
  mod Context.written[unbox(fw, "*Context")], Context.status[unbox(fw, "*Context")], $wc, $commit, $body, $hdr
  maypanic
  ens istype(fw, "*Context") ==> ctxOK(unbox(fw, "*Context"))
  ens istype(fw, "*Context") && old(unbox(fw, "*Context").written) ==> unbox(fw, "*Context").written && unbox(fw, "*Context").status == old(unbox(fw, "*Context").status)
  onpanic istype(fw, "*Context") ==> ctxOK(unbox(fw, "*Context"))
  onpanic istype(fw, "*Context") && old(unbox(fw, "*Context").written) ==> unbox(fw, "*Context").written && unbox(fw, "*Context").status == old(unbox(fw, "*Context").status)
end
spec newHandler(handler) -> h
  opt closureopt
  pan !isHandler(handler)
  ens [C05,C06] same: istype(handler, "Handler") ==> h == handler
  ens [C05,C06] fun: !istype(handler, "Handler") && istype(handler, "func(*Context)") ==> h == box(as(unbox(handler, "func(*Context)"), "HandlerFunc"))
  ens h != nil
  # names the function made for a foreign handler by the handler its contract below ties it to
  trust adapts(h, handler)
  closure (ctx)
    req chainOK(ctx)
    req [C07] running(ctx)
    mod Context.written[ctx], Context.status[ctx], $wc, $commit, $body, $hdr
    maypanic
    ens chainOK(ctx)
    ens old(ctx.written) ==> ctx.written && ctx.status == old(ctx.status)
    callassert [C05,C10] net/http.Handler.ServeHTTP :: fw == box(ctx) && fr == ctx.Request && fh == outer(handler)
    callassert [C05,C10] dyn:func(http.ResponseWriter, *http.Request) :: fw == box(ctx) && fr == ctx.Request && fh == outer(unbox(handler, "func(http.ResponseWriter, *http.Request)"))
    ens [C05,C10] forwarded: ncalls("net/http.Handler.ServeHTTP") + ncalls("dyn:func(http.ResponseWriter, *http.Request)") == 1
    onpanic chainOK(ctx)
    onpanic old(ctx.written) ==> ctx.written && ctx.status == old(ctx.status)
end
spec newHandlers(handlers) -> a
  pan hasBad(lst(handlers))
  ens len(a) == len(handlers) && freshslice(a)
  ens forall i: int {a[i]} :: 0 <= i && i < len(a) ==> adapts(a[i], handlers[i])
  ens [C05,C06] adaptsAll(lst(a), lst(handlers))
  inv any q: []Handler :: len(q) == len(handlers) && freshslice(q)
  inv any q: []Handler :: (forall j: int {q[j]} :: 0 <= j && j < $k ==> adapts(q[j], handlers[j]))
  inv any q: []Handler :: len(q) == $k
  inv forall j: int {handlers[j]} :: 0 <= j && j < $k ==> isHandler(handlers[j])
end
spec WithNoFoundHandlers(hs) -> f
  pan len(hs) == 0
  closure (o)
    req o != nil
    mod options.NoFoundHandlers[o]
    pan hasBad(lst(hs))
    ens [C25,C08] len(o.NoFoundHandlers) == len(hs)
    ens [C25,C08] forall i: int {o.NoFoundHandlers[i]} :: 0 <= i && i < len(hs) ==> adapts(o.NoFoundHandlers[i], hs[i])
end
property C05 newHandler newHandlers
property C25 WithNoFoundHandlers

# ---- C05/C06: the router tree as registered ----
# $routers: the routers allocated so far (maintained by the verifier at every allocation)
gvar $routers arr[ref]bool
track C05,C06 Router $routers
fun known(m: string): bool = midx(m) >= 0
def live(x: *Router): bool = $routers[x]
# parents were allocated before their children, so there are no cycles
def ranked(): bool = forall x: *Router {x.parent} :: live(x) && x.parent != nil ==> live(x.parent) && ord(x.parent) < ord(x)
# a router others were registered on carries no handlers of its own
def leafOK(): bool = forall x: *Router {x.parent} :: live(x) && x.parent != nil ==> len(x.parent.handlers) == 0
def ownPat(x: *Router): string = strings.TrimSpace(x.pattern)
fun chainOf(x: *Router): seq[any] =
  (if x.parent != nil && 0 < ord(x.parent) && ord(x.parent) < ord(x) then chainOf(x.parent) else empty("any"))
  ++ lst(x.gbefores) ++ lst(x.befores) ++ lst(x.handlers)
fun uriOf(x: *Router): string =
  (if x.parent != nil && 0 < ord(x.parent) && ord(x.parent) < ord(x) then uriOf(x.parent) else "") + ownPat(x)
# concatenation from the last element to the first
fun revcat(q: seq[string]): string = if len(q) == 0 then "" else q[len(q)-1] + revcat(q[0:len(q)-1])
fun isRev(a: seq[string], b: seq[string]): bool = len(a) == len(b) && (forall i: int {a[i]} :: 0 <= i && i < len(a) ==> a[i] == b[len(b)-1-i])
# proved by induction on the length: lemma join_rev_step
axiom join_rev: forall a: seq[string], b: seq[string] {isRev(a, b)} :: isRev(a, b) ==> strings.Join(a, "") == revcat(b)
# proved: lemma revcat_app_step
axiom revcat_app: forall q: seq[string], x: string {revcat(q ++ unit(x))} :: revcat(q ++ unit(x)) == x + revcat(q)

spec reverseStrings(s) -> r
  mod elems(s)
  ens len(r) == len(s) && base(r) == base(s)
  ens forall k: int {r[k]} :: 0 <= k && k < len(r) ==> r[k] == old(s[len(s)-1-k])
  ens [C05,C06] isRev(lst(r), old(lst(s)))
  inv any i: int :: 0 <= i && i <= len(s)
  inv any i: int, j: int :: i + j == len(s) - 1
  inv any i: int :: forall k: int {s[k]} :: 0 <= k && k < len(s) ==> s[k] == (if k < i || k > len(s)-1-i then old(s[len(s)-1-k]) else old(s[k]))
end

spec getRoute(r) -> re
  opt hide isRev hasBad adaptsAll
  req live(r) && ranked() && leafOK()
  ens fresh(re) && re != nil
  ens [C05,C06] method: re.method == r.method
  ens [C05,C06] uri: re.uri == old(uriOf(r))
  ens [C05,C06] length: len(re.handlers) == len(old(chainOf(r))) && len(re.handlers) > 0
  ens [C05,C06] chain: adaptsAll(lst(re.handlers), old(chainOf(r)))
  # names the router the new route was made from
  trust routerOf(re) == r
  pan len(chainOf(r)) == 0 || hasBad(chainOf(r))
  inv any t: *Router :: live(t)
  inv any hs: []any :: freshslice(hs)
  inv any t: *Router, hs: []any :: (t == r && len(hs) == 0) || len(t.handlers) == 0
  inv any ps: []string :: freshslice(ps)
  inv any t: *Router, hs: []any :: old(chainOf(r)) == old(chainOf(t)) ++ lst(hs)
  inv any t: *Router, ps: []string :: old(uriOf(r)) == old(uriOf(t)) + revcat(lst(ps))
end
property C05 getRoute reverseStrings

# the steps of the inductions (on the length) behind the two axioms
lemma revcat_app_step()
  opt for C05 C06
  opt without join_rev revcat_app
  var q: seq[string], x: string
  ens revcat(q ++ unit(x)) == x + revcat(q)
end
lemma isRev_tail()
  opt for C05 C06
  opt without join_rev revcat_app
  var a: seq[string], b: seq[string]
  req isRev(a, b) && len(a) > 0
  ens isRev(a[1:len(a)], b[0:len(b)-1])
end
lemma join_rev_step()
  opt for C05 C06
  opt without join_rev revcat_app
  var a: seq[string], b: seq[string]
  req isRev(a, b)
  # strings.Join without separator, one element at a time
  req len(a) == 0 ==> strings.Join(a, "") == ""
  req len(a) > 0 ==> strings.Join(a, "") == a[0] + strings.Join(a[1:len(a)], "")
  # the induction hypothesis, for the tail (isRev_tail)
  req len(a) > 0 ==> strings.Join(a[1:len(a)], "") == revcat(b[0:len(b)-1])
  ens strings.Join(a, "") == revcat(b)
end
property C05 revcat_app_step join_rev_step isRev_tail

# ---- registration ----
# the slices routers append to are their own: no two of them share memory
def sepB(): bool = forall x: *Router, y: *Router {x.befores, y.befores} :: live(x) && live(y) && x != y && cap(x.befores) > 0 && cap(y.befores) > 0 ==> base(x.befores) != base(y.befores)
def sepG(): bool = forall x: *Router, y: *Router {x.gbefores, y.gbefores} :: live(x) && live(y) && x != y && cap(x.gbefores) > 0 && cap(y.gbefores) > 0 ==> base(x.gbefores) != base(y.gbefores)
def sepBG(): bool = forall x: *Router, y: *Router {x.befores, y.gbefores} :: live(x) && live(y) && cap(x.befores) > 0 && cap(y.gbefores) > 0 ==> base(x.befores) != base(y.gbefores)
def sepBH(): bool = forall x: *Router, y: *Router {x.befores, y.handlers} :: live(x) && live(y) && cap(x.befores) > 0 && cap(y.handlers) > 0 ==> base(x.befores) != base(y.handlers)
def sepGH(): bool = forall x: *Router, y: *Router {x.gbefores, y.handlers} :: live(x) && live(y) && cap(x.gbefores) > 0 && cap(y.handlers) > 0 ==> base(x.gbefores) != base(y.handlers)
def sepS(): bool = forall x: *Router, y: *Router {x.sub, y.sub} :: live(x) && live(y) && x != y && cap(x.sub) > 0 && cap(y.sub) > 0 ==> base(x.sub) != base(y.sub)
def memOK(): bool = forall x: *Router {$routers[x]} :: live(x) ==> x != nil && allocated(x.befores) && allocated(x.gbefores) && allocated(x.handlers) && allocated(x.sub) && len(x.sub) <= cap(x.sub)
# the routers registered on a router are its children; only leaves have a method
def kidsOK(): bool = forall x: *Router, i: int {x.sub[i]} :: live(x) && 0 <= i && i < len(x.sub) ==> x.sub[i] != nil && live(x.sub[i]) && x.sub[i].parent == x
def shapeOK(): bool = forall x: *Router {$routers[x]} :: live(x) ==> (x.method == "" || x.sub == nil && known(x.method)) && (x.sub == nil || len(x.sub) > 0)
def treeOK(): bool = kidsOK() && shapeOK()
def sepOK(): bool = memOK() && treeOK() && sepB() && sepG() && sepBG() && sepBH() && sepGH() && sepS()
# a slice of the caller's, not one of a router's lists
def callers(h: []any): bool = forall x: *Router {x.befores} :: live(x) ==> (cap(x.befores) > 0 && cap(h) > 0 ==> base(x.befores) != base(h)) && (cap(x.gbefores) > 0 && cap(h) > 0 ==> base(x.gbefores) != base(h))
# a router handed out to users (leaves never are)
def usable(r: *Router): bool = live(r) && r != nil && len(r.handlers) == 0 && r.method == ""
def emptyR(r: *Router): bool = cap(r.befores) == 0 && cap(r.gbefores) == 0
def newLeaf(x: *Router, r: *Router, m: string, p: string, h: []any): bool = x != nil && fresh(x) && live(x) && x.parent == r && x.method == m && x.pattern == p && x.handlers == h && emptyR(x) && x.sub == nil

spec NewRouter() -> r
  req sepOK() && ranked() && leafOK()
  mod $routers
  ens fresh(r) && usable(r)
  ens [C05,C06] r.parent == nil && emptyR(r) && r.sub == nil && r.method == "" && r.pattern == ""
  ens sepOK() && ranked() && leafOK()
end
spec Router.IsParent(r) -> b
  req r != nil
  ens b == (r.parent == nil)
end
spec Router.Use(r, handlers)
  req usable(r) && sepOK()
  mod Router.befores[r], elems(r.befores)
  ens [C05] lst(r.befores) == old(lst(r.befores)) ++ old(lst(handlers))
  ens [C05] others: forall x: *Router {x.befores} :: live(x) && x != r && cap(x.befores) > 0 ==> lst(x.befores) == old(lst(x.befores))
  ens [C05] others2: forall x: *Router {x.gbefores} :: live(x) && cap(x.gbefores) > 0 ==> lst(x.gbefores) == old(lst(x.gbefores))
  ens [C05] others3: forall x: *Router {x.handlers} :: live(x) && cap(x.handlers) > 0 ==> lst(x.handlers) == old(lst(x.handlers))
  ens sepOK()
end
spec Router.Before(r, handlers)
  req usable(r) && sepOK()
  mod Router.gbefores[r], elems(r.gbefores)
  pan r.parent != nil
  ens [C05] lst(r.gbefores) == old(lst(r.gbefores)) ++ old(lst(handlers))
  ens [C05] others: forall x: *Router {x.befores} :: live(x) && cap(x.befores) > 0 ==> lst(x.befores) == old(lst(x.befores))
  ens [C05] others2: forall x: *Router {x.gbefores} :: live(x) && x != r && cap(x.gbefores) > 0 ==> lst(x.gbefores) == old(lst(x.gbefores))
  ens [C05] others3: forall x: *Router {x.handlers} :: live(x) && cap(x.handlers) > 0 ==> lst(x.handlers) == old(lst(x.handlers))
  ens sepOK()
end
def anyNil(h: []any): bool = exists i: int :: 0 <= i && i < len(h) && h[i] == nil
def sameSubs(r: *Router): bool = forall x: *Router {x.sub} :: old(live(x)) && x != r && cap(x.sub) > 0 ==> lst(x.sub) == old(lst(x.sub))
def onlyNew(r: *Router): bool = forall x: *Router {$routers[x]} :: live(x) ==> old(live(x)) || x == r.sub[len(r.sub)-1]
spec Router.handle(hr, hm, hp, hh)
  opt hide known
  req known(hm)
  req usable(hr) && sepOK() && leafOK() && ranked() && callers(hh)
  mod Router.sub[hr], elems(hr.sub), $routers
  pan anyNil(hh)
  ens [C05,C06] one: len(hr.sub) == old(len(hr.sub)) + 1 && lst(hr.sub) == old(lst(hr.sub)) ++ unit(hr.sub[len(hr.sub)-1])
  ens [C05,C06] leaf: newLeaf(hr.sub[len(hr.sub)-1], hr, hm, hp, hh)
  ens [C05,C06] others: sameSubs(hr)
  ens only: onlyNew(hr)
  ens back: fresh(hr.sub) || base(hr.sub) == old(base(hr.sub))
  ens sepOK() && leafOK() && ranked() && callers(hh)
  ens usable(hr)
  inv forall j: int {hh[j]} :: 0 <= j && j < $k ==> hh[j] != nil
end
property C05 NewRouter Router.IsParent Router.Use Router.Before Router.handle

def regReq(r: *Router, handlers: []any): bool = usable(r) && sepOK() && leafOK() && ranked() && callers(handlers)
def regInv(): bool = sepOK() && leafOK() && ranked()
def regOne(r: *Router, m: string, p: string, h: []any): bool = len(r.sub) == old(len(r.sub)) + 1 && lst(r.sub) == old(lst(r.sub)) ++ unit(r.sub[len(r.sub)-1]) && newLeaf(r.sub[len(r.sub)-1], r, m, p, h)
spec Router.GET(r, pattern, handlers)
  req regReq(r, handlers)
  mod Router.sub[r], elems(r.sub), $routers
  pan anyNil(handlers)
  ens [C05,C06] one: regOne(r, "GET", pattern, handlers)
  ens [C05,C06] others: sameSubs(r)
  ens regInv()
  ens usable(r)
  ens back: fresh(r.sub) || base(r.sub) == old(base(r.sub))
end
spec Router.POST(r, pattern, handlers)
  req regReq(r, handlers)
  mod Router.sub[r], elems(r.sub), $routers
  pan anyNil(handlers)
  ens [C05,C06] one: regOne(r, "POST", pattern, handlers)
  ens [C05,C06] others: sameSubs(r)
  ens regInv()
  ens usable(r)
  ens back: fresh(r.sub) || base(r.sub) == old(base(r.sub))
end
spec Router.PUT(r, pattern, handlers)
  req regReq(r, handlers)
  mod Router.sub[r], elems(r.sub), $routers
  pan anyNil(handlers)
  ens [C05,C06] one: regOne(r, "PUT", pattern, handlers)
  ens [C05,C06] others: sameSubs(r)
  ens regInv()
  ens usable(r)
  ens back: fresh(r.sub) || base(r.sub) == old(base(r.sub))
end
spec Router.PATCH(r, pattern, handlers)
  req regReq(r, handlers)
  mod Router.sub[r], elems(r.sub), $routers
  pan anyNil(handlers)
  ens [C05,C06] one: regOne(r, "PATCH", pattern, handlers)
  ens [C05,C06] others: sameSubs(r)
  ens regInv()
  ens usable(r)
  ens back: fresh(r.sub) || base(r.sub) == old(base(r.sub))
end
spec Router.DELETE(r, pattern, handlers)
  req regReq(r, handlers)
  mod Router.sub[r], elems(r.sub), $routers
  pan anyNil(handlers)
  ens [C05,C06] one: regOne(r, "DELETE", pattern, handlers)
  ens [C05,C06] others: sameSubs(r)
  ens regInv()
  ens usable(r)
  ens back: fresh(r.sub) || base(r.sub) == old(base(r.sub))
end
spec Router.OPTIONS(r, pattern, handlers)
  req regReq(r, handlers)
  mod Router.sub[r], elems(r.sub), $routers
  pan anyNil(handlers)
  ens [C05,C06] one: regOne(r, "OPTIONS", pattern, handlers)
  ens [C05,C06] others: sameSubs(r)
  ens regInv()
  ens usable(r)
  ens back: fresh(r.sub) || base(r.sub) == old(base(r.sub))
end
spec Router.HEAD(r, pattern, handlers)
  req regReq(r, handlers)
  mod Router.sub[r], elems(r.sub), $routers
  pan anyNil(handlers)
  ens [C05,C06] one: regOne(r, "HEAD", pattern, handlers)
  ens [C05,C06] others: sameSubs(r)
  ens regInv()
  ens usable(r)
  ens back: fresh(r.sub) || base(r.sub) == old(base(r.sub))
end
fun excl(m: string, ex: []string): bool = exists j: int :: 0 <= j && j < len(ex) && ex[j] == m
# how many of the first k supported methods are not excluded
fun cntM(k: int): int = if k <= 0 then 0 else cntM(k-1) + (if excl(_HTTP_METHODS_NAMES[k-1], MethodAnyExclude) then 0 else 1)
def anyKey(i: int, m: string): bool = 0 <= i && i < len(_HTTP_METHODS_NAMES) && _HTTP_METHODS_NAMES[i] == m && !excl(m, MethodAnyExclude)
spec Router.ANY(r, pattern, handlers)
  asm namesOK()
  req regReq(r, handlers)
  mod Router.sub[r], elems(r.sub), $routers
  pan anyNil(handlers) && (exists i: int :: anyKey(i, _HTTP_METHODS_NAMES[i]))
  callassert water.Router.handle :: hr == r && hp == pattern && hh == handlers && !excl(hm, MethodAnyExclude) && exists i: int :: 0 <= i && i < len(_HTTP_METHODS_NAMES) && _HTTP_METHODS_NAMES[i] == hm && cntM(i) == ncalls("water.Router.handle") - 1
  ens [C06] all: ncalls("water.Router.handle") == cntM(len(_HTTP_METHODS_NAMES))
  ens [C05,C06] leaves: len(r.sub) == old(len(r.sub)) + ncalls("water.Router.handle")
  ens regInv()
  inv len(r.sub) == old(len(r.sub)) + ncalls("water.Router.handle")
  inv fresh(r.sub) || base(r.sub) == old(base(r.sub))
  inv regReq(r, handlers)
  inv ncalls("water.Router.handle") == cntM($k)
  inv forall j: int {_HTTP_METHODS_NAMES[j]} :: 0 <= j && j < $k ==> !anyNil(handlers) || excl(_HTTP_METHODS_NAMES[j], MethodAnyExclude)
  inv any m: string :: forall j: int {MethodAnyExclude[j]} :: 0 <= j && j < $k ==> MethodAnyExclude[j] != m
end
property C06 Router.GET Router.POST Router.PUT Router.PATCH Router.DELETE Router.OPTIONS Router.HEAD Router.ANY Router.handle

# a function given to Group registers routes through the methods above
ext dyn:func(*water.Router)(gf, gx)
  req usable(gx) && regInv()
  mod Router.befores[*], Router.gbefores[*], Router.sub[*], heap E:iface, heap E:*water.Router, $routers
  maypanic
  ens regInv()
end
def isCb(v: any): bool = !istype(v, "func(*Context)") && istype(v, "func(*Router)")
# no function that registers routes was called
def nocb(): bool = ncalls("dyn:func(*water.Router)") == 0
spec Router.Group(r, pattern, is) -> rr
  req usable(r) && regInv() && callers(is)
  mod Router.befores[*], Router.gbefores[*], Router.sub[*], heap E:iface, heap E:*water.Router, $routers
  maypanic
  callassert [C05,C06] dyn:func(*water.Router) :: fresh(gx) && gx.parent == r && gx.pattern == pattern
  ens fresh(rr) && usable(rr) && regInv()
  ens [C05,C06] rr.parent == r && rr.pattern == pattern && rr.method == ""
  ens [C05] own: nocb() ==> lst(rr.befores) == old(lst(is)) && emptyG(rr)
  ens [C05,C06] linked: nocb() ==> lst(r.sub) == old(lst(r.sub)) ++ unit(rr)
  inv memOK()
  inv kidsOK()
  inv shapeOK()
  inv sepB()
  inv sepG()
  inv sepBG()
  inv sepBH()
  inv sepGH()
  inv sepS()
  inv leafOK()
  inv ranked()
  inv ncalls("dyn:func(*water.Router)") >= 0
  inv any x: *Router :: fresh(x) && usable(x) && x.parent == r && x.pattern == pattern && x.method == ""
  inv any x: *Router :: nocb() ==> lst(x.befores) == old(lst(is))[0:$k] 
  inv any x: *Router :: nocb() ==> emptyG(x)
  inv any x: *Router :: nocb() ==> lst(r.sub) == old(lst(r.sub)) ++ unit(x)
  inv any x: *Router :: nocb() ==> freshslice(x.befores)
  inv nocb() ==> (forall i: int {is[i]} :: 0 <= i && i < len(is) ==> is[i] == old(is[i]))
end
def emptyG(r: *Router): bool = cap(r.gbefores) == 0 && r.sub == nil
property C05 Router.Group
