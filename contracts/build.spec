package water

# ---- package tables ----
def namesOK(): bool = len(_HTTP_METHODS_NAMES) == 7 && _HTTP_METHODS_NAMES[0] == "GET" && _HTTP_METHODS_NAMES[1] == "POST" && _HTTP_METHODS_NAMES[2] == "DELETE" && _HTTP_METHODS_NAMES[3] == "PUT" && _HTTP_METHODS_NAMES[4] == "PATCH" && _HTTP_METHODS_NAMES[5] == "HEAD" && _HTTP_METHODS_NAMES[6] == "OPTIONS"
def methodsOK(): bool = _HTTP_METHODS != nil && (forall m: string {m in _HTTP_METHODS} :: m in _HTTP_METHODS <==> midx(m) >= 0)
spec init()
  opt noframe
  ens [C06] names: namesOK()
  ens [C06] table: methodsOK()
  ens [C06] exclude: len(MethodAnyExclude) == 2 && MethodAnyExclude[0] == "HEAD" && MethodAnyExclude[1] == "OPTIONS"
  ens [C25] default: defaultMultipartMemory == 33554432
end
property C06 init
onlywriters C06 _HTTP_METHODS_NAMES: init
onlywriters C06 _HTTP_METHODS: init
property C25 init

# ---- the routes collected from the routers ----
# the router a route was made from (names the otherwise unconstrained origin of a new route)
decl routerOf(r: *route): *Router
fun origins(q: seq[*route]): seq[*Router] = if len(q) == 0 then empty("*Router") else origins(q[0:len(q)-1]) ++ unit(routerOf(q[len(q)-1]))
# proved: lemma origins_app_step
axiom origins_app: forall q: seq[*route], x: *route {origins(q ++ unit(x))} :: origins(q ++ unit(x)) == origins(q) ++ unit(routerOf(x))
lemma origins_app_step()
  opt for C06
  opt without origins_app
  var q: seq[*route], x: *route
  ens origins(q ++ unit(x)) == origins(q) ++ unit(routerOf(x))
end
property C06 origins_app_step
fun taken(q: seq[*route], m: string, u: string): bool = len(q) > 0 && (q[len(q)-1].method == m && q[len(q)-1].uri == u || taken(q[0:len(q)-1], m, u))
# the table of the store says which routes there are; methOf names the method a table is for
decl methOf(t: map[string]*route): string
def storeMaps(rs: *routeStore): bool = rs != nil && rs.routeMap != nil && (forall m: string {m in rs.routeMap} :: known(m) ==> rs.routeMap[m] != nil && methOf(rs.routeMap[m]) == m)
def storeNil(rs: *routeStore): bool = forall i: int {rs.routeSlice[i]} :: 0 <= i && i < len(rs.routeSlice) ==> rs.routeSlice[i] != nil && known(rs.routeSlice[i].method)
def storeIn(rs: *routeStore): bool = forall m: string, u: string {taken(lst(rs.routeSlice), m, u)} :: known(m) && taken(lst(rs.routeSlice), m, u) ==> rs.routeMap[m][u] != nil
def storeOf(rs: *routeStore): bool = forall t: map[string]*route, u: string {u in t} :: t != nil && known(methOf(t)) && rs.routeMap[methOf(t)] == t && t[u] != nil ==> taken(lst(rs.routeSlice), methOf(t), u)
def storeOK(rs: *routeStore): bool = storeMaps(rs) && storeNil(rs) && storeIn(rs) && storeOf(rs)

spec newRouteStore() -> rs
  asm methodsOK()
  ens fresh(rs) && rs != nil && len(rs.routeSlice) == 0 && freshslice(rs.routeSlice) && isnew(rs.routeMap)
  ens none: lst(rs.routeSlice) == empty("*route") && origins(lst(rs.routeSlice)) == empty("*Router")
  ens tables: forall m: string {m in rs.routeMap} :: known(m) ==> rs.routeMap[m] != nil && mapval(rs.routeMap[m]) == emptymap("mapv[string]*route")
  ens distinct: forall m: string, k: string {m in rs.routeMap, k in rs.routeMap} :: known(m) && known(k) && m != k ==> rs.routeMap[m] != rs.routeMap[k]
  # names the new, distinct tables
  trust forall m: string {m in rs.routeMap} :: known(m) ==> methOf(rs.routeMap[m]) == m
  inv any x: *routeStore :: len(x.routeSlice) == 0
  inv any x: *routeStore :: freshslice(x.routeSlice)
  inv any x: *routeStore :: isnew(x.routeMap)
  inv any x: *routeStore :: forall m: string {m in x.routeMap} :: m in $visited ==> m in x.routeMap
  inv any x: *routeStore :: forall m: string {m in x.routeMap} :: m in $visited ==> x.routeMap[m] != nil && mapval(x.routeMap[m]) == emptymap("mapv[string]*route") && allocated(x.routeMap[m])
  inv any x: *routeStore :: forall m: string, k: string {m in x.routeMap, k in x.routeMap} :: m in $visited && k in $visited && m != k ==> x.routeMap[m] != x.routeMap[k]
end
spec routeStore.add(rs, r)
  opt hide known
  req storeOK(rs) && r != nil && (r.method == "" || known(r.method))
  mod routeStore.routeSlice[rs], elems(rs.routeSlice), map(rs.routeMap[r.method])
  pan r.method != "" && taken(lst(rs.routeSlice), r.method, r.uri)
  ens [C06] added: lst(rs.routeSlice) == (if r.method == "" then old(lst(rs.routeSlice)) else old(lst(rs.routeSlice)) ++ unit(r))
  ens storeMaps(rs)
  ens storeNil(rs)
  ens storeIn(rs)
  ens storeOf(rs)
  ens back: fresh(rs.routeSlice) || base(rs.routeSlice) == old(base(rs.routeSlice))
end
property C06 newRouteStore routeStore.add

# ---- collecting the routes of a router tree, in registration order ----
fun leavesOf(x: *Router, q: seq[*Router]): seq[*Router] =
  if x.sub == nil then (if x.method == "" then q else q ++ unit(x)) else leavesFrom(x, 0, q)
fun leavesFrom(x: *Router, i: int, q: seq[*Router]): seq[*Router] =
  if i < 0 || i >= len(x.sub) || !(ord(x) < ord(x.sub[i])) then q else leavesFrom(x, i+1, leavesOf(x.sub[i], q))
fun takenR(q: seq[*Router], m: string, u: string): bool = len(q) > 0 && (q[len(q)-1].method == m && uriOf(q[len(q)-1]) == u || takenR(q[0:len(q)-1], m, u))
# a route that cannot be registered: without handlers, with an unsupported one, or there already
fun wrong(x: *Router, q: seq[*Router]): bool =
  if x.sub == nil then x.method != "" && (len(chainOf(x)) == 0 || hasBad(chainOf(x)) || takenR(q, x.method, uriOf(x))) else wrongFrom(x, 0, q)
fun wrongFrom(x: *Router, i: int, q: seq[*Router]): bool =
  0 <= i && i < len(x.sub) && ord(x) < ord(x.sub[i]) && (wrong(x.sub[i], q) || wrongFrom(x, i+1, leavesOf(x.sub[i], q)))
# what the store knows of a router's route
fun made(re: *route): bool = let x = routerOf(re) in re.method == x.method && re.uri == uriOf(x) && adaptsAll(lst(re.handlers), chainOf(x)) && len(re.handlers) > 0
fun allMade(q: seq[*route]): bool = len(q) == 0 || (made(q[len(q)-1]) && allMade(q[0:len(q)-1]))
def madeAll(rs: *routeStore): bool = allMade(lst(rs.routeSlice))
def sameKeys(rs: *routeStore): bool = forall m: string, u: string {taken(lst(rs.routeSlice), m, u)} :: taken(lst(rs.routeSlice), m, u) <==> takenR(origins(lst(rs.routeSlice)), m, u)
spec dumpRoute(r, rs)
  opt hide known adaptsAll hasBad chainOf uriOf
  req live(r) && r != nil && ranked() && leafOK() && treeOK()
  req storeOK(rs) && sameKeys(rs) && madeAll(rs)
  mod routeStore.routeSlice[rs], elems(rs.routeSlice), heap M:string:*water.route#d, heap M:string:*water.route#v
  pan wrong(r, origins(lst(rs.routeSlice)))
  ens [C05,C06] all: origins(lst(rs.routeSlice)) == leavesOf(r, old(origins(lst(rs.routeSlice))))
  ens storeMaps(rs)
  ens storeNil(rs)
  ens storeIn(rs)
  ens storeOf(rs)
  ens back: fresh(rs.routeSlice) || base(rs.routeSlice) == old(base(rs.routeSlice))
  ens sameKeys(rs)
  ens [C05,C06] madeAll(rs)
  inv storeMaps(rs)
  inv storeNil(rs)
  inv storeIn(rs)
  inv storeOf(rs)
  inv sameKeys(rs)
  inv madeAll(rs)
  inv leavesOf(r, old(origins(lst(rs.routeSlice)))) == leavesFrom(r, $k, origins(lst(rs.routeSlice)))
  inv old(wrong(r, origins(lst(rs.routeSlice)))) == wrongFrom(r, $k, origins(lst(rs.routeSlice)))
  inv fresh(rs.routeSlice) || base(rs.routeSlice) == old(base(rs.routeSlice))
end
property C06 dumpRoute
