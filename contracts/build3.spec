package water

# ---- C06: what Handler() checks and builds ----
fun okUri(u: string): bool = u == "/" || (len(u) > 0 && u[0] == 47 && u[len(u)-1] != 47)
spec checkSplitPattern(pattern) -> r
  ens ok: (pattern == "/" || r) == okUri(pattern)
  ens r == (len(pattern) > 0 && pattern[0] == 47 && pattern[len(pattern)-1] != 47)
end
# ":name" stands for "<name>"
fun vseg(s: string): string = if strings.HasPrefix(s, ":") then "<" + strings.TrimSpace(s[1:]) + ">" else if strings.HasPrefix(s, "*") then strings.TrimSpace(s) else s
fun vsegs(q: seq[string]): seq[string] = if len(q) == 0 then empty("string") else vsegs(q[0:len(q)-1]) ++ unit(vseg(q[len(q)-1]))
fun isV(a: seq[string], b: seq[string]): bool = len(a) == len(b) && (forall i: int {a[i]} :: 0 <= i && i < len(a) ==> a[i] == vseg(b[i]))
# proved by induction on the length: lemmas isV_base, isV_init, isV_last and isV_step
axiom isV_all: forall a: seq[string], b: seq[string] {isV(a, b)} :: isV(a, b) ==> a == vsegs(b)
lemma isV_init()
  opt for C04 C06
  opt without isV_all
  opt hide vseg
  var a: seq[string], b: seq[string]
  req isV(a, b) && len(a) > 0
  ens isV(a[0:len(a)-1], b[0:len(b)-1])
end
lemma isV_last()
  opt for C04 C06
  opt without isV_all
  opt hide vseg
  var a: seq[string], b: seq[string]
  req isV(a, b) && len(a) > 0
  ens len(a) == len(b) && a[len(a)-1] == vseg(b[len(b)-1])
end
lemma isV_base()
  opt for C04 C06
  opt without isV_all
  opt hide vseg
  var a: seq[string], b: seq[string]
  req isV(a, b) && len(a) == 0
  ens a == vsegs(b)
end
lemma isV_step()
  opt for C04 C06
  opt without isV_all
  opt hide vseg isV
  var a: seq[string], b: seq[string]
  # the induction hypothesis (for a and b without their last elements: isV_init), and isV_last
  req len(a) > 0 && len(a) == len(b)
  req a[0:len(a)-1] == vsegs(b[0:len(b)-1])
  req a[len(a)-1] == vseg(b[len(b)-1])
  ens a == vsegs(b)
end
fun variant(u: string): string = if strings.Contains(u, "/:") || strings.Contains(u, "/*") then strings.Join(vsegs(splitOf(u, "/")), "/") else u
spec _VariantUri(raw) -> r
  opt hide splitOf vsegs
  ens [C04,C06] text: r == variant(raw)
  inv any ls: []string :: len(ls) == len(splitOf(raw, "/")) && freshslice(ls)
  inv any ls: []string :: forall j: int {ls[j]} :: 0 <= j && j < len(ls) ==> ls[j] == (if j < $k then vseg(splitOf(raw, "/")[j]) else splitOf(raw, "/")[j])
  inv any ls: []string :: $k == len(ls) ==> isV(lst(ls), splitOf(raw, "/"))
end
property C06 checkSplitPattern _VariantUri
property C04 _VariantUri

# ---- C06: putting the collected routes into the trees ----
fun mi(m: string): int = midx(m)
# proved: lemma miKnown
axiom miRange: forall m: string {mi(m)} :: known(m) ==> 0 <= mi(m) && mi(m) < 8
lemma miKnown()
  opt for C06
  opt without miRange
  var m: string
  ens known(m) ==> 0 <= mi(m) && mi(m) < 8
end
property C06 miKnown
def freeMethods(e: *Engine): bool = forall i: int {e.routers[i]} :: 0 <= i && i < 8 ==> e.routers[i] == nil && e.routersStatic[i] == nil
def sameAs(a: *route, b: *route): bool = mi(a.method) == mi(b.method) && ptrim(a.variantUri) == ptrim(b.variantUri)
def clash(e: *Engine): bool = exists a: int, b: int {e.routeStore.routeSlice[a], e.routeStore.routeSlice[b]} :: 0 <= a && a < b && b < len(e.routeStore.routeSlice) && sameAs(e.routeStore.routeSlice[a], e.routeStore.routeSlice[b])
def badPath(e: *Engine): bool = exists a: int {e.routeStore.routeSlice[a]} :: 0 <= a && a < len(e.routeStore.routeSlice) && badUri(e.routeStore.routeSlice[a].variantUri)
fun allStatic(x: *node): bool = x == nil || (x.typ == _PATTERN_STATIC && allStatic(x.parent))
spec isStaticRoute(node) -> r
  ens [C06,C08] all: r == allStatic(node)
end
def eRoots(e: *Engine): bool = forall i: int {e.routers[i]} :: 0 <= i && i < 8 && e.routers[i] != nil ==> nlive(e.routers[i]) && rootOf(e.routers[i]) == e.routers[i]
def eApart(e: *Engine): bool = forall i: int, j: int {e.routers[i], e.routers[j]} :: 0 <= i && i < j && j < 8 && e.routers[i] != nil ==> e.routers[i] != e.routers[j]
# the routes put in so far are those the nodes of the engine's trees carry
def eMatch(e: *Engine): bool = forall x: *node, i: int {x.matchNode, e.routers[i]} :: nlive(x) && x.matchNode != nil && 0 <= i && i < 8 && e.routers[i] != nil && rootOf(x) == e.routers[i] ==> mi(x.matchNode.method) == i && pathOf(x) == pathOf(e.routers[i]) + "/" + ptrim(x.matchNode.variantUri)
def eFrom(e: *Engine, k: int): bool = forall x: *node, i: int {x.matchNode, e.routers[i]} :: nlive(x) && x.matchNode != nil && 0 <= i && i < 8 && e.routers[i] != nil && rootOf(x) == e.routers[i] ==> (exists j: int {e.routeStore.routeSlice[j]} :: 0 <= j && j < k && x.matchNode == e.routeStore.routeSlice[j])
# every route is carried by a node of the tree of its method
def served(e: *Engine, k: int): bool = forall j: int {e.routeStore.routeSlice[j]} :: 0 <= j && j < k ==> e.routers[mi(e.routeStore.routeSlice[j].method)] != nil && (exists x: *node {x.matchNode} :: nlive(x) && x.matchNode == e.routeStore.routeSlice[j] && rootOf(x) == e.routers[mi(e.routeStore.routeSlice[j].method)])
spec Engine.buildTree(e)
  opt hide okPath okSeg kind lastSeg known mi ptrim badUri
  req e != nil && e.options != nil && e.routeStore != nil && storeNil(e.routeStore)
  req freeMethods(e) && nOK() && nPath() && nRoot()
  mod Engine.routers[e], Engine.routersStatic[e], node.subNodes[*], node.endNodes[*], heap E:*water.node, node.matchNode[*], heap M:string:*water.node#d, heap M:string:*water.node#v, $nodes
  maypanic
  onpanic [C06] why: badPath(e) || clash(e)
  callassert [C06] water.node.add :: let t = e.routers[mi(e.routeStore.routeSlice[ncalls("water.node.add")-1].method)] in n == t || t == nil
  callassert [C06] water.node.add :: pattern == e.routeStore.routeSlice[ncalls("water.node.add")-1].variantUri
  callassert [C06] water.node.add :: handlers == e.routeStore.routeSlice[ncalls("water.node.add")-1].handlers
  ens [C06] each: ncalls("water.node.add") == len(e.routeStore.routeSlice)
  ens [C06] served: served(e, len(e.routeStore.routeSlice))
  ens nOK()
  ens nPath()
  ens nRoot()
  inv nMem()
  inv nSepS()
  inv nSepE()
  inv nSepSE()
  inv nKidsS()
  inv nKidsE()
  inv nOrdS()
  inv nOrdE()
  inv nPath()
  inv eRoots(e)
  inv eApart(e)
  inv eMatch(e)
  inv eFrom(e, $k)
  inv nRoot()
  inv served(e, $k)
  inv ncalls("water.node.add") == $k
end
property C06 Engine.buildTree isStaticRoute

# ---- C05, C06, C25: Handler ----
# proved by induction on the length: lemmas origins_len_step, origins_at_step, made_at_step
axiom origins_len: forall q: seq[*route] {origins(q)} :: len(origins(q)) == len(q)
axiom origins_at: forall q: seq[*route], j: int {origins(q)[j]} :: 0 <= j && j < len(q) ==> origins(q)[j] == routerOf(q[j])
axiom made_at: forall q: seq[*route], j: int {allMade(q), q[j]} :: allMade(q) && 0 <= j && j < len(q) ==> q[j].uri == uriOf(routerOf(q[j]))
lemma origins_len_step()
  opt for C06
  opt without origins_len origins_at made_at
  var q: seq[*route]
  req len(q) > 0 ==> len(origins(q[0:len(q)-1])) == len(q) - 1
  ens len(origins(q)) == len(q)
end
lemma origins_at_step()
  opt for C06
  opt without origins_at made_at
  var q: seq[*route], j: int
  req 0 <= j && j < len(q)
  req j < len(q) - 1 ==> origins(q[0:len(q)-1])[j] == routerOf(q[j])
  ens origins(q)[j] == routerOf(q[j])
end
lemma made_at_step()
  opt for C06
  opt hide uriOf adaptsAll chainOf
  opt without made_at
  var q: seq[*route], j: int
  req 0 <= j && j < len(q) && allMade(q)
  req j < len(q) - 1 && allMade(q[0:len(q)-1]) ==> q[0:len(q)-1][j].uri == uriOf(routerOf(q[0:len(q)-1][j]))
  ens q[j].uri == uriOf(routerOf(q[j]))
end
property C06 origins_len_step origins_at_step made_at_step
ext dyn:water.Option(ff, fo)
  req fo != nil
  mod options.EnableStaticRouter[fo], options.NoFoundHandlers[fo], options.MaxMultipartMemory[fo]
  maypanic
end
spec newWater() -> e
  ens fresh(e) && e != nil && freeMethods(e) && e.options == nil && e.routeStore == nil
end
def goodAll(x: *routeStore): bool = forall j: int {x.routeSlice[j]} :: 0 <= j && j < len(x.routeSlice) ==> okUri(x.routeSlice[j].uri)
# what the store of a router tree holds: a route for every leaf, with its path and handlers
def storeFor(x: *routeStore, r: *Router): bool = x != nil && origins(lst(x.routeSlice)) == leavesOf(r, empty("*Router")) && madeAll(x)
spec Router.Handler(r, opts) -> w
  opt hide adaptsAll hasBad chainOf uriOf known mi ptrim wrong leavesOf variant vsegs splitOf
  asm methodsOK()
  req usable(r) && ranked() && leafOK() && treeOK()
  req nOK() && nPath() && nRoot()
  req forall i: int {opts[i]} :: 0 <= i && i < len(opts) ==> opts[i] != nil
  mod route.variantUri[*], heap E:*water.route, heap M:string:*water.route#d, heap M:string:*water.route#v, heap M:string:map[string]*water.route#d
  mod node.subNodes[*], node.endNodes[*], heap E:*water.node, node.matchNode[*], heap M:string:*water.node#d, heap M:string:*water.node#v, $nodes
  mod V water.defaultMultipartMemory, V binding.defaultMultipartMemory
  maypanic
  onpanic [C06] why: r.parent != nil || npanics("dyn:water.Option") > 0 || hasBad(lst(r.gbefores)) || npanics("water.dumpRoute") > 0 || (ncalls("water.dumpRoute") == 1 && origins(lst(call_rs.routeSlice)) == leavesOf(r, empty("*Router")) && ncalls("water._VariantUri") < len(call_rs.routeSlice) && !okUri(call_rs.routeSlice[ncalls("water._VariantUri")].uri)) || npanics("water.Engine.buildTree") > 0
  callassert [C06] water.Engine.buildTree :: storeFor(e.routeStore, r) && goodAll(e.routeStore)
  callassert [C06] water.Engine.buildTree :: forall i: int {e.routeStore.routeSlice[i]} :: 0 <= i && i < len(e.routeStore.routeSlice) ==> e.routeStore.routeSlice[i].variantUri == variant(e.routeStore.routeSlice[i].uri)
  ens [C06] built: ncalls("water.Engine.buildTree") == 1
  ens [C06] accepted: r.parent == nil && ncalls("water.dumpRoute") == 1 && storeFor(w.routeStore, r) && goodAll(w.routeStore)
  callassert [C06] water.dumpRoute :: r == my_r && len(rs.routeSlice) == 0
  callassert [C25] dyn:water.Option :: ff == opts[ncalls("dyn:water.Option") - 1] && (ncalls("dyn:water.Option") == 1 ==> fo.MaxMultipartMemory == 33554432 && !fo.EnableStaticRouter && len(fo.NoFoundHandlers) == 0)
  ens [C25] called: ncalls("dyn:water.Option") == len(opts)
  ens [C25] preset: len(opts) == 0 ==> w.options.MaxMultipartMemory == 33554432
  ens [C25] limit: defaultMultipartMemory == w.options.MaxMultipartMemory && binding.defaultMultipartMemory == w.options.MaxMultipartMemory
  ens [C05] first: len(w.options.NoFoundHandlers) > 0 && len(r.gbefores) > 0 ==> len(w.options.NoFoundHandlers) >= len(r.gbefores) && adaptsAll(lst(w.options.NoFoundHandlers)[0:len(r.gbefores)], lst(r.gbefores))
  ens fresh(w) && w.rootRouter == r && w.routeStore != nil && w.options != nil
  inv ncalls("dyn:water.Option") == $k
  inv any o: *options :: $k == 0 ==> o.MaxMultipartMemory == 33554432 && !o.EnableStaticRouter && len(o.NoFoundHandlers) == 0
  inv any x: *routeStore :: forall j: int {x.routeSlice[j]} :: 0 <= j && j < $k ==> okUri(x.routeSlice[j].uri) && x.routeSlice[j].variantUri == variant(x.routeSlice[j].uri)
  inv any x: *routeStore :: madeAll(x)
  inv ncalls("water._VariantUri") == $k
  inv ncalls("water._VariantUri") == 0
end
property C06 Router.Handler
property C05 Router.Handler
property C25 Router.Handler
elsewhere C06 getRoute: C05
elsewhere C05 Engine.buildTree dumpRoute newRouteStore: C06
elsewhere C25 Engine.buildTree dumpRoute newRouteStore: C06
