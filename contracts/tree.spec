package water

# ---- representation invariant of routing trees (every node) ----
def subsOK(): bool = forall m: *node, i: int {m.subNodes[i]} :: m != nil && 0 <= i && i < len(m.subNodes) ==> m.subNodes[i] != nil
def endsOK(): bool = forall m: *node, i: int {m.endNodes[i]} :: m != nil && 0 <= i && i < len(m.endNodes) ==> m.endNodes[i] != nil
def regOK(): bool = forall m: *node {m.reg} :: m != nil && m.typ == _PATTERN_REGEXP ==> m.reg != nil
def nodesOK(): bool = subsOK() && endsOK() && regOK()

pures regexp.Regexp.FindStringSubmatch

# ---- what a node accepts: one path segment, or the whole remainder ----
def regAccept(c: *node, s: string): bool = len(regexp.Regexp.FindStringSubmatch(c.reg, s)) - 1 == len(c.wildcards)
def accept(c: *node, s: string): bool =
  if c.typ == _PATTERN_STATIC then c.pattern == s
  else if c.typ == _PATTERN_REGEXP then regAccept(c, s)
  else c.typ == _PATTERN_HOLDER || c.typ == _PATTERN_MATCH_ALL

# ---- the route a path resolves to ----
fun mNext(n: *node, uri: string): *node =
  if indexof(uri, "/") == -1 then mEnd(n, uri, 0)
  else mSub(n, uri[:indexof(uri, "/")], uri[indexof(uri, "/")+1:], 0)
fun mEnd(n: *node, uri: string, i: int): *node =
  if i < 0 || i >= len(n.endNodes) then nil
  else if accept(n.endNodes[i], uri) then n.endNodes[i]
  else mEnd(n, uri, i+1)
fun mSub(n: *node, seg: string, uri: string, i: int): *node =
  if i < 0 || i >= len(n.subNodes) then mTail(n, 0)
  else if accept(n.subNodes[i], seg) && mNext(n.subNodes[i], uri) != nil then mNext(n.subNodes[i], uri)
  else mSub(n, seg, uri, i+1)
fun mTail(n: *node, i: int): *node =
  if i < 0 || i >= len(n.endNodes) then nil
  else if n.endNodes[i].typ == _PATTERN_MATCH_ALL then n.endNodes[i]
  else mTail(n, i+1)

# ---- the captures of that route ----
def capNamed(p: mapv[string]string, name: string, v: string): mapv[string]string = if name == "_" then p else put(p, name, v)
fun pReg(c: *node, q: seq[string], j: int, p: mapv[string]string): mapv[string]string =
  if j < 0 || j >= len(c.wildcards) then p
  else pReg(c, q, j+1, capNamed(p, c.wildcards[j], q[j+1]))
def capture(c: *node, s: string, g: int, p: mapv[string]string): mapv[string]string =
  if c.typ == _PATTERN_REGEXP then pReg(c, regexp.Regexp.FindStringSubmatch(c.reg, s), 0, p)
  else if c.typ == _PATTERN_HOLDER then capNamed(p, c.parsedPattern, s)
  else if c.typ == _PATTERN_MATCH_ALL then (if c.parsedPattern == "" then put(p, "*" + strconv.Itoa(g), s) else capNamed(p, c.parsedPattern, s))
  else p
fun pNext(n: *node, uri: string, g: int, p: mapv[string]string): mapv[string]string =
  if indexof(uri, "/") == -1 then pEnd(n, uri, g, p, 0)
  else pSub(n, uri[:indexof(uri, "/")], uri[indexof(uri, "/")+1:], g, p, 0)
fun pEnd(n: *node, uri: string, g: int, p: mapv[string]string, i: int): mapv[string]string =
  if i < 0 || i >= len(n.endNodes) then p
  else if accept(n.endNodes[i], uri) then capture(n.endNodes[i], uri, g, p)
  else pEnd(n, uri, g, p, i+1)
fun pSub(n: *node, seg: string, uri: string, g: int, p: mapv[string]string, i: int): mapv[string]string =
  if i < 0 || i >= len(n.subNodes) then pTail(n, seg + "/" + uri, g, p, 0)
  else if accept(n.subNodes[i], seg) && mNext(n.subNodes[i], uri) != nil
    then capture(n.subNodes[i], seg, g, pNext(n.subNodes[i], uri, if n.subNodes[i].typ == _PATTERN_MATCH_ALL then g+1 else g, p))
  else pSub(n, seg, uri, g, p, i+1)
fun pTail(n: *node, s: string, g: int, p: mapv[string]string, i: int): mapv[string]string =
  if i < 0 || i >= len(n.endNodes) then p
  else if n.endNodes[i].typ == _PATTERN_MATCH_ALL then capture(n.endNodes[i], s, g, p)
  else pTail(n, s, g, p, i+1)

spec node.matchNextSegment(n, globLevel, uri, params) -> r
  req n != nil && params != nil && nodesOK()
  mod map(params)
  ens [C01,C02,C08,C09] found: r == mNext(n, uri)
  ens [C02,C09] missclean: mNext(n, uri) == nil ==> mapval(params) == old(mapval(params))
  ens [C02,C09] captures: mNext(n, uri) != nil ==> mapval(params) == pNext(n, uri, globLevel, old(mapval(params)))
  dec 2 * len(uri)
end

spec node.matchEndNode(n, globLevel, uri, params) -> r
  req n != nil && params != nil && nodesOK()
  mod map(params)
  ens [C01,C02,C08,C09] found: r == mEnd(n, uri, 0)
  ens [C02,C09] missclean: mEnd(n, uri, 0) == nil ==> mapval(params) == old(mapval(params))
  ens [C02,C09] captures: mEnd(n, uri, 0) != nil ==> mapval(params) == pEnd(n, uri, globLevel, old(mapval(params)), 0)
  inv [C01,C02,C08,C09] mEnd(n, uri, 0) == mEnd(n, uri, $k)
  inv [C02,C09] pEnd(n, uri, globLevel, old(mapval(params)), 0) == pEnd(n, uri, globLevel, old(mapval(params)), $k)
  inv [C02,C09] mapval(params) == old(mapval(params))
  inv [C02,C09] any c: *node, q: []string :: pReg(c, lst(q), $k, mapval(params)) == pReg(c, lst(q), 0, entry(mapval(params)))
end

spec node.matchSubNode(n, globLevel, segment, uri, params) -> r
  req n != nil && params != nil && nodesOK()
  mod map(params)
  ens [C01,C02,C08,C09] found: r == mSub(n, segment, uri, 0)
  ens [C02,C09] missclean: mSub(n, segment, uri, 0) == nil ==> mapval(params) == old(mapval(params))
  ens [C02,C09] captures: mSub(n, segment, uri, 0) != nil ==> mapval(params) == pSub(n, segment, uri, globLevel, old(mapval(params)), 0)
  inv [C01,C02,C08,C09] mSub(n, segment, uri, 0) == mSub(n, segment, uri, $k)
  inv [C02,C09] pSub(n, segment, uri, globLevel, old(mapval(params)), 0) == pSub(n, segment, uri, globLevel, old(mapval(params)), $k)
  inv [C01,C02,C08,C09] mSub(n, segment, uri, 0) == mTail(n, $k)
  inv [C02,C09] pSub(n, segment, uri, globLevel, old(mapval(params)), 0) == pTail(n, segment + "/" + uri, globLevel, old(mapval(params)), $k)
  inv [C02,C09] mapval(params) == old(mapval(params))
  inv [C02,C09] any c: *node, q: []string :: pReg(c, lst(q), $k, mapval(params)) == pReg(c, lst(q), 0, entry(mapval(params)))
  dec 2 * len(uri) + 1
end

def trimSlash(s: string): string = strings.TrimSuffix(strings.TrimPrefix(s, "/"), "/")

spec node.Match(n, uri) -> r, p
  req nodesOK()
  ens [C01,C02,C08,C09] found: r == (if n == nil then nil else mNext(n, trimSlash(uri)))
  ens [C02,C09] captures: r != nil ==> mapval(p) == pNext(n, trimSlash(uri), 0, emptymap("mapv[string]string"))
  ens [C02,C09] miss: n != nil && r == nil ==> mapval(p) == emptymap("mapv[string]string")
  ens n != nil ==> fresh(p) && p != nil
  ens n == nil ==> p == nil
end

property C01 node.Match
property C02 node.Match
