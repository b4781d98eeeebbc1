package water

# ---- C03: adding a route to a tree ----
def nlive(x: *node): bool = $nodes[x]
def nMem(): bool = forall x: *node {$nodes[x]} :: nlive(x) ==> x != nil && allocated(x.subNodes) && allocated(x.endNodes) && len(x.subNodes) <= cap(x.subNodes) && len(x.endNodes) <= cap(x.endNodes) && okSeg(x.pattern) && x.typ == kind(x.pattern)
def nSepS(): bool = forall x: *node, y: *node {x.subNodes, y.subNodes} :: nlive(x) && nlive(y) && x != y && cap(x.subNodes) > 0 && cap(y.subNodes) > 0 ==> base(x.subNodes) != base(y.subNodes)
def nSepE(): bool = forall x: *node, y: *node {x.endNodes, y.endNodes} :: nlive(x) && nlive(y) && x != y && cap(x.endNodes) > 0 && cap(y.endNodes) > 0 ==> base(x.endNodes) != base(y.endNodes)
def nSepSE(): bool = forall x: *node, y: *node {x.subNodes, y.endNodes} :: nlive(x) && nlive(y) && cap(x.subNodes) > 0 && cap(y.endNodes) > 0 ==> base(x.subNodes) != base(y.endNodes)
def nKidsS(): bool = forall x: *node, i: int {x.subNodes[i]} :: nlive(x) && 0 <= i && i < len(x.subNodes) ==> x.subNodes[i] != nil && nlive(x.subNodes[i]) && x.subNodes[i].parent == x
def nKidsE(): bool = forall x: *node, i: int {x.endNodes[i]} :: nlive(x) && 0 <= i && i < len(x.endNodes) ==> x.endNodes[i] != nil && nlive(x.endNodes[i]) && x.endNodes[i].parent == x
# siblings are ordered by kind and no two have the same pattern
def nOrdS(): bool = forall x: *node, i: int, j: int {x.subNodes[i], x.subNodes[j]} :: nlive(x) && 0 <= i && i < j && j < len(x.subNodes) ==> x.subNodes[i].typ <= x.subNodes[j].typ && x.subNodes[i].pattern != x.subNodes[j].pattern
def nOrdE(): bool = forall x: *node, i: int, j: int {x.endNodes[i], x.endNodes[j]} :: nlive(x) && 0 <= i && i < j && j < len(x.endNodes) ==> x.endNodes[i].typ <= x.endNodes[j].typ && x.endNodes[i].pattern != x.endNodes[j].pattern
def ins(q: seq[*node], p: int, c: *node): seq[*node] = q[0:p] ++ unit(c) ++ q[p:len(q)]
def nOK(): bool = nMem() && nSepS() && nSepE() && nSepSE() && nKidsS() && nKidsE() && nOrdS() && nOrdE()

# C06: the path a node stands for; a new node has no route yet
def nPath(): bool = forall x: *node {pathOf(x)} :: nlive(x) && x.parent != nil ==> pathOf(x) == pathOf(x.parent) + "/" + x.pattern && rootOf(x) == rootOf(x.parent)
def nRoot(): bool = forall x: *node {rootOf(x)} :: nlive(x) ==> nlive(rootOf(x))
def nNew(): bool = forall x: *node {x.matchNode} :: nlive(x) && !old(nlive(x)) ==> x.matchNode == nil
# where a new sibling of kind t goes: before the first of a later kind
fun insPos(q: seq[*node], t: byte, i: int): int = if i < 0 || i >= len(q) then len(q) else if t < q[i].typ then i else insPos(q, t, i+1)
# the sibling with a pattern
fun findPat(q: seq[*node], p: string, i: int): *node = if i < 0 || i >= len(q) then nil else if q[i].pattern == p then q[i] else findPat(q, p, i+1)

spec node.addEndNode(n, pattern, handlers) -> r
  opt hide okSeg kind
  req nlive(n) && nOK()
  req [C06] nPath()
  req [C06] nRoot()
  mod node.endNodes[n], elems(n.endNodes), $nodes
  pan !okSeg(pattern)
  ens [C06] path: pathOf(r) == pathOf(n) + "/" + pattern && rootOf(r) == rootOf(n)
  ens [C06] nPath()
  ens [C06] nRoot()
  ens [C06] nNew()
  ens r != nil && nlive(r) && r.pattern == pattern && r.parent == n
  ens [C03] found: old(findPat(lst(n.endNodes), pattern, 0)) != nil ==> r == old(findPat(lst(n.endNodes), pattern, 0)) && lst(n.endNodes) == old(lst(n.endNodes))
  ens [C03] added: old(findPat(lst(n.endNodes), pattern, 0)) == nil ==> fresh(r) && r.handlers == handlers && r.matchNode == nil && r.typ == kind(pattern)
  ens [C03] place: old(findPat(lst(n.endNodes), pattern, 0)) == nil ==> (let p = old(insPos(lst(n.endNodes), kind(pattern), 0)) in lst(n.endNodes) == old(lst(n.endNodes))[0:p] ++ unit(r) ++ old(lst(n.endNodes))[p:len(old(lst(n.endNodes)))])
  ens [C03] keepS: forall x: *node {x.subNodes} :: old(nlive(x)) ==> lst(x.subNodes) == old(lst(x.subNodes))
  ens back: fresh(n.endNodes) || base(n.endNodes) == old(base(n.endNodes))
  cut dif: old(findPat(lst(n.endNodes), pattern, 0)) == nil ==> (forall i: int {old(n.endNodes[i])} :: 0 <= i && i < old(len(n.endNodes)) ==> old(n.endNodes[i]).pattern != pattern)
  cut len: len(n.endNodes) == old(len(n.endNodes)) + (if old(findPat(lst(n.endNodes), pattern, 0)) == nil then 1 else 0)
  cut pos: old(findPat(lst(n.endNodes), pattern, 0)) == nil ==> (let p = old(insPos(lst(n.endNodes), kind(pattern), 0)) in 0 <= p && p <= old(len(n.endNodes)) && (p < old(len(n.endNodes)) ==> kind(pattern) < old(n.endNodes[p]).typ))
  cut low: old(findPat(lst(n.endNodes), pattern, 0)) == nil ==> (let p = old(insPos(lst(n.endNodes), kind(pattern), 0)) in forall i: int {old(n.endNodes[i])} :: 0 <= i && i < p ==> old(n.endNodes[i]).typ <= kind(pattern))
  cut elem0: old(findPat(lst(n.endNodes), pattern, 0)) != nil ==> (forall i: int {n.endNodes[i]} :: 0 <= i && i < len(n.endNodes) ==> n.endNodes[i] == old(n.endNodes[i]))
  cut elem1: old(findPat(lst(n.endNodes), pattern, 0)) == nil ==> (let p = old(insPos(lst(n.endNodes), kind(pattern), 0)) in forall i: int {n.endNodes[i]} :: 0 <= i && i < len(n.endNodes) ==> n.endNodes[i] == (if i < p then old(n.endNodes[i]) else if i == p then r else old(n.endNodes[i-1])))
  cut others using back split n: forall x: *node, i: int {x.endNodes[i]} :: old(nlive(x)) && x != n && 0 <= i && i < len(x.endNodes) ==> len(x.endNodes) == old(len(x.endNodes)) && x.endNodes[i] == old(x.endNodes[i])
  cut othersS: forall x: *node, i: int {x.subNodes[i]} :: old(nlive(x)) && 0 <= i && i < len(x.subNodes) ==> x.subNodes[i] == old(x.subNodes[i])
  ens [C03] keepE using back split n: forall x: *node {x.endNodes} :: old(nlive(x)) && x != n ==> lst(x.endNodes) == old(lst(x.endNodes))
  ens nMem()
  ens nSepS()
  ens nSepE()
  ens nSepSE()
  ens kidsS using othersS: nKidsS()
  ens kidsE using len,elem0,elem1,others split n: nKidsE()
  ens ordS using othersS: nOrdS()
  ens ordE using len,dif,pos,low,elem0,elem1,others split n: nOrdE()
  inv findPat(lst(n.endNodes), pattern, 0) == findPat(lst(n.endNodes), pattern, $k)
  inv insPos(lst(n.endNodes), kind(pattern), 0) == insPos(lst(n.endNodes), kind(pattern), $k)
  inv forall j: int {n.endNodes[j]} :: 0 <= j && j < $k ==> n.endNodes[j].pattern != pattern
  inv forall j: int {n.endNodes[j]} :: 0 <= j && j < len(n.endNodes) ==> n.endNodes[j].pattern != pattern
  inv forall j: int {n.endNodes[j]} :: 0 <= j && j < $k ==> n.endNodes[j].typ <= kind(pattern)
end

# the old node that gets a new child when a route is added (nothing changes elsewhere), the segment
# it gets, and the existing end of the route
fun tgt(n: *node, p: string): *node = if indexof(p, "/") == -1 then n else tgtS(n, p[:indexof(p, "/")], p[indexof(p, "/")+1:])
fun tgtS(n: *node, g: string, p: string): *node = if findPat(lst(n.subNodes), g, 0) == nil then n else tgt(findPat(lst(n.subNodes), g, 0), p)
fun segAt(n: *node, p: string): string = if indexof(p, "/") == -1 then p else segS(n, p[:indexof(p, "/")], p[indexof(p, "/")+1:])
fun segS(n: *node, g: string, p: string): string = if findPat(lst(n.subNodes), g, 0) == nil then g else segAt(findPat(lst(n.subNodes), g, 0), p)
fun inEnds(n: *node, p: string): bool = if indexof(p, "/") == -1 then true else inEndsS(n, p[:indexof(p, "/")], p[indexof(p, "/")+1:])
fun inEndsS(n: *node, g: string, p: string): bool = if findPat(lst(n.subNodes), g, 0) == nil then false else inEnds(findPat(lst(n.subNodes), g, 0), p)
fun endAt(n: *node, p: string): *node = if indexof(p, "/") == -1 then findPat(lst(n.endNodes), p, 0) else endS(n, p[:indexof(p, "/")], p[indexof(p, "/")+1:])
fun endS(n: *node, g: string, p: string): *node = if findPat(lst(n.subNodes), g, 0) == nil then nil else endAt(findPat(lst(n.subNodes), g, 0), p)
fun okPath(p: string): bool = if indexof(p, "/") == -1 then okSeg(p) else okSeg(p[:indexof(p, "/")]) && okPath(p[indexof(p, "/")+1:])
fun lastSeg(p: string): string = if indexof(p, "/") == -1 then p else lastSeg(p[indexof(p, "/")+1:])

spec node.addNextSegment(n, pattern, handlers) -> r
  opt hide okSeg kind findPat insPos
  req nlive(n) && nOK()
  req [C06] nPath()
  req [C06] nRoot()
  mod node.subNodes[*], node.endNodes[*], heap E:*water.node, $nodes
  pan !okPath(pattern)
  ens [C06] path: pathOf(r) == pathOf(n) + "/" + pattern && rootOf(r) == rootOf(n)
  ens [C06] nPath()
  ens [C06] nRoot()
  ens [C06] nNew()
  ens r != nil && nlive(r) && r.pattern == lastSeg(pattern)
  ens grow: forall x: *node {old(nlive(x))} :: old(nlive(x)) ==> nlive(x)
  ens [C03] found: old(endAt(n, pattern)) != nil ==> r == old(endAt(n, pattern))
  ens [C03] added: old(endAt(n, pattern)) == nil ==> fresh(r) && r.handlers == handlers && r.matchNode == nil
  ens [C03] keepS: forall x: *node {x.subNodes} :: old(nlive(x)) && x != old(tgt(n, pattern)) ==> lst(x.subNodes) == old(lst(x.subNodes))
  ens [C03] keepE: forall x: *node {x.endNodes} :: old(nlive(x)) && x != old(tgt(n, pattern)) ==> lst(x.endNodes) == old(lst(x.endNodes))
  ens [C03] target: old(nlive(tgt(n, pattern)))
  ens [C03] atEnd: old(inEnds(n, pattern)) ==> lst(old(tgt(n, pattern)).subNodes) == old(lst(tgt(n, pattern).subNodes)) && (old(endAt(n, pattern)) != nil ==> lst(old(tgt(n, pattern)).endNodes) == old(lst(tgt(n, pattern).endNodes))) && (old(endAt(n, pattern)) == nil ==> lst(old(tgt(n, pattern)).endNodes) == ins(old(lst(tgt(n, pattern).endNodes)), old(insPos(lst(tgt(n, pattern).endNodes), kind(segAt(n, pattern)), 0)), r))
  ens [C03] atSub: !old(inEnds(n, pattern)) ==> lst(old(tgt(n, pattern)).endNodes) == old(lst(tgt(n, pattern).endNodes)) && old(endAt(n, pattern)) == nil && (let c = lst(old(tgt(n, pattern)).subNodes)[old(insPos(lst(tgt(n, pattern).subNodes), kind(segAt(n, pattern)), 0))] in nlive(c) && !old(nlive(c)) && c.pattern == old(segAt(n, pattern)) && c.parent == old(tgt(n, pattern)) && lst(old(tgt(n, pattern)).subNodes) == ins(old(lst(tgt(n, pattern).subNodes)), old(insPos(lst(tgt(n, pattern).subNodes), kind(segAt(n, pattern)), 0)), c))
  ens nOK()
end

spec node.addSubNode(n, segment, pattern, handlers) -> r
  opt hide okSeg kind okPath lastSeg
  req nlive(n) && nOK()
  req [C06] nPath()
  req [C06] nRoot()
  mod node.subNodes[*], node.endNodes[*], heap E:*water.node, $nodes
  pan !okSeg(segment) || !okPath(pattern)
  ens [C06] path: pathOf(r) == pathOf(n) + "/" + segment + "/" + pattern && rootOf(r) == rootOf(n)
  ens [C06] nPath()
  ens [C06] nRoot()
  ens [C06] nNew()
  ens r != nil && nlive(r) && r.pattern == lastSeg(pattern)
  ens grow: forall x: *node {old(nlive(x))} :: old(nlive(x)) ==> nlive(x)
  ens [C03] found: old(endS(n, segment, pattern)) != nil ==> r == old(endS(n, segment, pattern))
  ens [C03] added: old(endS(n, segment, pattern)) == nil ==> fresh(r) && r.handlers == handlers && r.matchNode == nil
  ens [C03] keepS: forall x: *node {x.subNodes} :: old(nlive(x)) && x != old(tgtS(n, segment, pattern)) ==> lst(x.subNodes) == old(lst(x.subNodes))
  ens [C03] keepE: forall x: *node {x.endNodes} :: old(nlive(x)) && x != old(tgtS(n, segment, pattern)) ==> lst(x.endNodes) == old(lst(x.endNodes))
  ens [C03] target: old(nlive(tgtS(n, segment, pattern)))
  ens [C03] atEnd: old(inEndsS(n, segment, pattern)) ==> lst(old(tgtS(n, segment, pattern)).subNodes) == old(lst(tgtS(n, segment, pattern).subNodes)) && (old(endS(n, segment, pattern)) != nil ==> lst(old(tgtS(n, segment, pattern)).endNodes) == old(lst(tgtS(n, segment, pattern).endNodes))) && (old(endS(n, segment, pattern)) == nil ==> lst(old(tgtS(n, segment, pattern)).endNodes) == ins(old(lst(tgtS(n, segment, pattern).endNodes)), old(insPos(lst(tgtS(n, segment, pattern).endNodes), kind(segS(n, segment, pattern)), 0)), r))
  cut [C03] new: old(findPat(lst(n.subNodes), segment, 0)) == nil ==> old(tgtS(n, segment, pattern)) == n && old(segS(n, segment, pattern)) == segment && !old(inEndsS(n, segment, pattern))
  cut [C03] sameC: old(findPat(lst(n.subNodes), segment, 0)) != nil ==> old(inEndsS(n, segment, pattern)) == old(inEnds(findPat(lst(n.subNodes), segment, 0), pattern)) && old(segS(n, segment, pattern)) == old(segAt(findPat(lst(n.subNodes), segment, 0), pattern)) && old(tgtS(n, segment, pattern)) == old(tgt(findPat(lst(n.subNodes), segment, 0), pattern)) && old(endS(n, segment, pattern)) == old(endAt(findPat(lst(n.subNodes), segment, 0), pattern))
  cut [C03] newC using after,@found,@added,@empty,@blank: old(findPat(lst(n.subNodes), segment, 0)) == nil ==> nlive(call_n) && !old(nlive(call_n)) && call_n.pattern == segment && call_n.parent == n && lst(n.endNodes) == old(lst(n.endNodes)) && old(endS(n, segment, pattern)) == nil
  cut [C03] newS using plain,after,@found,@placeU,@empty,@blank: old(findPat(lst(n.subNodes), segment, 0)) == nil ==> lst(n.subNodes) == ins(old(lst(n.subNodes)), old(insPos(lst(n.subNodes), kind(segment), 0)), call_n)
  cut [C03] newAt using newC,newS,@pos: old(findPat(lst(n.subNodes), segment, 0)) == nil ==> lst(n.subNodes)[old(insPos(lst(n.subNodes), kind(segment), 0))] == call_n
  cut [C03] atF using all,sameC: old(findPat(lst(n.subNodes), segment, 0)) != nil ==> (!old(inEndsS(n, segment, pattern)) ==> lst(old(tgtS(n, segment, pattern)).endNodes) == old(lst(tgtS(n, segment, pattern).endNodes)) && old(endS(n, segment, pattern)) == nil && (let c = lst(old(tgtS(n, segment, pattern)).subNodes)[old(insPos(lst(tgtS(n, segment, pattern).subNodes), kind(segS(n, segment, pattern)), 0))] in nlive(c) && !old(nlive(c)) && c.pattern == old(segS(n, segment, pattern)) && c.parent == old(tgtS(n, segment, pattern)) && lst(old(tgtS(n, segment, pattern)).subNodes) == ins(old(lst(tgtS(n, segment, pattern).subNodes)), old(insPos(lst(tgtS(n, segment, pattern).subNodes), kind(segS(n, segment, pattern)), 0)), c)))
  cut [C03] atN using new,newC,newS,newAt: old(findPat(lst(n.subNodes), segment, 0)) == nil ==> (!old(inEndsS(n, segment, pattern)) ==> lst(old(tgtS(n, segment, pattern)).endNodes) == old(lst(tgtS(n, segment, pattern).endNodes)) && old(endS(n, segment, pattern)) == nil && (let c = lst(old(tgtS(n, segment, pattern)).subNodes)[old(insPos(lst(tgtS(n, segment, pattern).subNodes), kind(segS(n, segment, pattern)), 0))] in nlive(c) && !old(nlive(c)) && c.pattern == old(segS(n, segment, pattern)) && c.parent == old(tgtS(n, segment, pattern)) && lst(old(tgtS(n, segment, pattern)).subNodes) == ins(old(lst(tgtS(n, segment, pattern).subNodes)), old(insPos(lst(tgtS(n, segment, pattern).subNodes), kind(segS(n, segment, pattern)), 0)), c)))
  ens [C03] atSub using atF,atN: !old(inEndsS(n, segment, pattern)) ==> lst(old(tgtS(n, segment, pattern)).endNodes) == old(lst(tgtS(n, segment, pattern).endNodes)) && old(endS(n, segment, pattern)) == nil && (let c = lst(old(tgtS(n, segment, pattern)).subNodes)[old(insPos(lst(tgtS(n, segment, pattern).subNodes), kind(segS(n, segment, pattern)), 0))] in nlive(c) && !old(nlive(c)) && c.pattern == old(segS(n, segment, pattern)) && c.parent == old(tgtS(n, segment, pattern)) && lst(old(tgtS(n, segment, pattern)).subNodes) == ins(old(lst(tgtS(n, segment, pattern).subNodes)), old(insPos(lst(tgtS(n, segment, pattern).subNodes), kind(segS(n, segment, pattern)), 0)), c))
  ens nOK()
  callassert water.node.addNextSegment cut found :: old(findPat(lst(my_n.subNodes), segment, 0)) != nil ==> n == old(findPat(lst(my_n.subNodes), segment, 0)) && n != nil
  callassert water.node.addNextSegment cut added :: old(findPat(lst(my_n.subNodes), segment, 0)) == nil ==> isnew(n) && n.typ == kind(segment) && n.pattern == segment && n.parent == my_n && len(n.subNodes) == 0 && len(n.endNodes) == 0
  callassert [C03] water.node.addNextSegment cut place :: old(findPat(lst(my_n.subNodes), segment, 0)) == nil ==> (let p = old(insPos(lst(my_n.subNodes), kind(segment), 0)) in lst(my_n.subNodes) == old(lst(my_n.subNodes))[0:p] ++ unit(n) ++ old(lst(my_n.subNodes))[p:len(old(lst(my_n.subNodes)))])
  callassert [C03] water.node.addNextSegment cut placeU :: old(findPat(lst(my_n.subNodes), segment, 0)) == nil ==> (forall x: *node {x.subNodes} :: x == my_n ==> (let p = old(insPos(lst(my_n.subNodes), kind(segment), 0)) in lst(x.subNodes) == old(lst(my_n.subNodes))[0:p] ++ unit(n) ++ old(lst(my_n.subNodes))[p:len(old(lst(my_n.subNodes)))]))
  callassert water.node.addNextSegment cut back :: fresh(my_n.subNodes) || base(my_n.subNodes) == old(base(my_n.subNodes))
  callassert water.node.addNextSegment cut dif :: old(findPat(lst(my_n.subNodes), segment, 0)) == nil ==> (forall i: int {old(my_n.subNodes[i])} :: 0 <= i && i < old(len(my_n.subNodes)) ==> old(my_n.subNodes[i]).pattern != segment)
  callassert water.node.addNextSegment cut len :: len(my_n.subNodes) == old(len(my_n.subNodes)) + (if old(findPat(lst(my_n.subNodes), segment, 0)) == nil then 1 else 0)
  callassert water.node.addNextSegment cut pos :: old(findPat(lst(my_n.subNodes), segment, 0)) == nil ==> (let p = old(insPos(lst(my_n.subNodes), kind(segment), 0)) in 0 <= p && p <= old(len(my_n.subNodes)) && (p < old(len(my_n.subNodes)) ==> kind(segment) < old(my_n.subNodes[p]).typ))
  callassert water.node.addNextSegment cut low :: old(findPat(lst(my_n.subNodes), segment, 0)) == nil ==> (let p = old(insPos(lst(my_n.subNodes), kind(segment), 0)) in forall i: int {old(my_n.subNodes[i])} :: 0 <= i && i < p ==> old(my_n.subNodes[i]).typ <= kind(segment))
  callassert water.node.addNextSegment cut elem0 :: old(findPat(lst(my_n.subNodes), segment, 0)) != nil ==> (forall i: int {my_n.subNodes[i]} :: 0 <= i && i < len(my_n.subNodes) ==> my_n.subNodes[i] == old(my_n.subNodes[i]))
  callassert water.node.addNextSegment cut elem1 :: old(findPat(lst(my_n.subNodes), segment, 0)) == nil ==> (let p = old(insPos(lst(my_n.subNodes), kind(segment), 0)) in forall i: int {my_n.subNodes[i]} :: 0 <= i && i < len(my_n.subNodes) ==> my_n.subNodes[i] == (if i < p then old(my_n.subNodes[i]) else if i == p then n else old(my_n.subNodes[i-1])))
  callassert water.node.addNextSegment cut others using back split my_n :: forall x: *node, i: int {x.subNodes[i]} :: old(nlive(x)) && x != my_n && 0 <= i && i < len(x.subNodes) ==> len(x.subNodes) == old(len(x.subNodes)) && x.subNodes[i] == old(x.subNodes[i])
  callassert water.node.addNextSegment cut othersE :: forall x: *node, i: int {x.endNodes[i]} :: old(nlive(x)) && 0 <= i && i < len(x.endNodes) ==> x.endNodes[i] == old(x.endNodes[i])
  callassert [C03] water.node.addNextSegment cut empty :: old(findPat(lst(my_n.subNodes), segment, 0)) == nil ==> n != my_n && n != nil && len(lst(n.subNodes)) == 0 && len(lst(n.endNodes)) == 0
  callassert [C03] water.node.addNextSegment cut noend :: old(findPat(lst(my_n.subNodes), segment, 0)) == nil ==> findPat(lst(n.endNodes), pattern, 0) == nil
  callassert [C03] water.node.addNextSegment cut nosub :: old(findPat(lst(my_n.subNodes), segment, 0)) == nil ==> findPat(lst(n.subNodes), pattern[:indexof(pattern, "/")], 0) == nil
  callassert [C03] water.node.addNextSegment cut blank2 :: old(findPat(lst(my_n.subNodes), segment, 0)) == nil ==> indexof(pattern, "/") != -1 ==> endS(n, pattern[:indexof(pattern, "/")], pattern[indexof(pattern, "/")+1:]) == nil && tgtS(n, pattern[:indexof(pattern, "/")], pattern[indexof(pattern, "/")+1:]) == n
  callassert [C03] water.node.addNextSegment cut blank :: old(findPat(lst(my_n.subNodes), segment, 0)) == nil ==> endAt(n, pattern) == nil && tgt(n, pattern) == n
  callassert water.node.addNextSegment cut mem :: nMem()
  callassert water.node.addNextSegment cut sepS :: nSepS()
  callassert water.node.addNextSegment cut sepE :: nSepE()
  callassert water.node.addNextSegment cut sepSE :: nSepSE()
  callassert water.node.addNextSegment cut kidsE using othersE :: nKidsE()
  callassert water.node.addNextSegment cut kidsS using len,elem0,elem1,others split my_n :: nKidsS()
  callassert water.node.addNextSegment cut ordE using othersE :: nOrdE()
  callassert water.node.addNextSegment cut ordS using len,dif,pos,low,elem0,elem1,others split my_n :: nOrdS()
  inv findPat(lst(n.subNodes), segment, 0) == findPat(lst(n.subNodes), segment, $k)
  inv insPos(lst(n.subNodes), kind(segment), 0) == insPos(lst(n.subNodes), kind(segment), $k)
  inv forall j: int {n.subNodes[j]} :: 0 <= j && j < $k ==> n.subNodes[j].pattern != segment
  inv forall j: int {n.subNodes[j]} :: 0 <= j && j < len(n.subNodes) ==> n.subNodes[j].pattern != segment
  inv forall j: int {n.subNodes[j]} :: 0 <= j && j < $k ==> n.subNodes[j].typ <= kind(segment)
end

fun ptrim(u: string): string = trimSlash(u)
# a path with a segment the router refuses
fun badUri(u: string): bool = !okPath(trimSlash(u))
spec node.add(n, pattern, handlers) -> r
  opt hide okSeg kind findPat insPos tgt endAt segAt inEnds okPath lastSeg
  req nlive(n) && nOK()
  req [C06] nPath()
  req [C06] nRoot()
  mod node.subNodes[*], node.endNodes[*], heap E:*water.node, $nodes
  pan badUri(pattern)
  ens [C06] path: pathOf(r) == pathOf(n) + "/" + ptrim(pattern) && rootOf(r) == rootOf(n)
  ens [C06] nPath()
  ens [C06] nRoot()
  ens [C06] nNew()
  ens r != nil && nlive(r) && r.pattern == lastSeg(trimSlash(pattern))
  ens grow: forall x: *node {old(nlive(x))} :: old(nlive(x)) ==> nlive(x)
  ens [C03] found: old(endAt(n, trimSlash(pattern))) != nil ==> r == old(endAt(n, trimSlash(pattern)))
  ens [C03] added: old(endAt(n, trimSlash(pattern))) == nil ==> fresh(r) && r.handlers == handlers && r.matchNode == nil
  ens [C03] keepS: forall x: *node {x.subNodes} :: old(nlive(x)) && x != old(tgt(n, trimSlash(pattern))) ==> lst(x.subNodes) == old(lst(x.subNodes))
  ens [C03] keepE: forall x: *node {x.endNodes} :: old(nlive(x)) && x != old(tgt(n, trimSlash(pattern))) ==> lst(x.endNodes) == old(lst(x.endNodes))
  ens [C03] target: old(nlive(tgt(n, trimSlash(pattern))))
  ens [C03] atEnd: old(inEnds(n, trimSlash(pattern))) ==> lst(old(tgt(n, trimSlash(pattern))).subNodes) == old(lst(tgt(n, trimSlash(pattern)).subNodes)) && (old(endAt(n, trimSlash(pattern))) != nil ==> lst(old(tgt(n, trimSlash(pattern))).endNodes) == old(lst(tgt(n, trimSlash(pattern)).endNodes))) && (old(endAt(n, trimSlash(pattern))) == nil ==> lst(old(tgt(n, trimSlash(pattern))).endNodes) == ins(old(lst(tgt(n, trimSlash(pattern)).endNodes)), old(insPos(lst(tgt(n, trimSlash(pattern)).endNodes), kind(segAt(n, trimSlash(pattern))), 0)), r))
  ens [C03] atSub: !old(inEnds(n, trimSlash(pattern))) ==> lst(old(tgt(n, trimSlash(pattern))).endNodes) == old(lst(tgt(n, trimSlash(pattern)).endNodes)) && old(endAt(n, trimSlash(pattern))) == nil && (let c = lst(old(tgt(n, trimSlash(pattern))).subNodes)[old(insPos(lst(tgt(n, trimSlash(pattern)).subNodes), kind(segAt(n, trimSlash(pattern))), 0))] in nlive(c) && !old(nlive(c)) && c.pattern == old(segAt(n, trimSlash(pattern))) && c.parent == old(tgt(n, trimSlash(pattern))) && lst(old(tgt(n, trimSlash(pattern))).subNodes) == ins(old(lst(tgt(n, trimSlash(pattern)).subNodes)), old(insPos(lst(tgt(n, trimSlash(pattern)).subNodes), kind(segAt(n, trimSlash(pattern))), 0)), c))
  ens nOK()
end

spec newTree() -> r
  opt hide okSeg kind
  req nOK()
  req [C06] nPath()
  req [C06] nRoot()
  mod $nodes
  pan !okSeg("")
  ens r != nil && nlive(r) && fresh(r) && r.parent == nil && r.pattern == "" && len(r.subNodes) == 0 && len(r.endNodes) == 0 && r.matchNode == nil
  ens [C06] path: rootOf(r) == r
  ens [C06] nPath()
  ens [C06] nRoot()
  ens [C06] nNew()
  ens nOK()
  ens grow: forall x: *node {old(nlive(x))} :: old(nlive(x)) ==> nlive(x)
end
axiom trimEmpty: forall s: string {strings.TrimSpace(s)} :: s == "" ==> strings.TrimSpace(s) == s
lemma okEmpty()
  opt without segEmpty
  ens okSeg("")
end
# proved: lemma okEmpty
axiom segEmpty: forall s: string {okSeg(s)} :: s == "" ==> okSeg(s)
property C06 okEmpty
property C03 node.add newTree okEmpty node.addEndNode node.addSubNode node.addNextSegment
