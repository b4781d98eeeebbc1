package water

# ---- C04: the parts of a segment pattern ----
# where the names end: before the first ':' or '~', or at the closing bracket
def namesEnd(p: string): int =
  let c = indexof(p, ":") in let t = indexof(p, "~") in
  if c >= 0 && (t < 0 || c < t) then c else if t >= 0 then t else len(p) - 1
def bracketed(p: string): bool = contains(p, "<") || contains(p, ">")
def misplaced(p: string): bool = !hasprefix(p, "*") && bracketed(p) && !(indexof(p, "<") == 0 && strings.LastIndex(p, ">") == len(p) - 1)
def namesOf(p: string): string = if hasprefix(p, "*") || !bracketed(p) then p else strings.TrimSpace(p[1:namesEnd(p)])

# what a segment is
def isAll(p: string): bool = hasprefix(namesOf(p), "*")
def isNamed(p: string): bool = !isAll(p) && contains(p, "<")
def isRegexp(p: string): bool = isNamed(p) && contains(p, "~")
def kindOf(p: string): byte = if isAll(p) then _PATTERN_MATCH_ALL else if isRegexp(p) then _PATTERN_REGEXP else if isNamed(p) then _PATTERN_HOLDER else _PATTERN_STATIC

# regular expressions: validity, number of groups and source text of a compiled one (trusted: package regexp)
decl validRE(s: string): bool
decl groupsRE(s: string): int
decl reSrc(re: *regexp.Regexp): string
ext regexp.Compile(s) -> re, err
  ens err == nil <==> validRE(s)
  ens err == nil ==> re != nil && reSrc(re) == s
end
ext regexp.MustCompile(s) -> re
  pan !validRE(s)
  ens re != nil && reSrc(re) == s
end
ext regexp.Regexp.NumSubexp(re) -> k
  ens k == groupsRE(reSrc(re)) && k >= 0
end
def exprOf(p: string): string = strings.TrimSpace(p[indexof(p, "~")+1:len(p)-1])
# the expression as used: in a group of its own when it has none and there is one name
def usedRE(p: string, want: int): string = if groupsRE(exprOf(p)) == 0 && want == 1 then "(" + exprOf(p) + ")" else exprOf(p)
def badRE(p: string, want: int): bool = want == 0 || !validRE(exprOf(p)) || (groupsRE(exprOf(p)) != want && !(groupsRE(exprOf(p)) == 0 && want == 1))

spec getparsedPattern(pattern) -> q
  pan misplaced(pattern)
  ens [C03,C04,C06] q == namesOf(pattern)
end
spec partternRegexp(pattern, want) -> rx, err
  req contains(pattern, "~") && strings.LastIndex(pattern, ">") == len(pattern) - 1 && len(pattern) > 0 && want >= 0
  ens [C03,C04,C06] checked: err == nil <==> !badRE(pattern, want)
  ens [C03,C04,C06] expr: err == nil ==> rx == usedRE(pattern, want)
end
spec getWildcards(pattern) -> ws
  ens [C03,C04,C06] count: len(ws) == len(splitOf(pattern, ",")) && len(ws) > 0
  ens [C03,C04,C06] names: forall i: int {ws[i]} :: 0 <= i && i < len(ws) ==> ws[i] == strings.TrimSpace(splitOf(pattern, ",")[i])
  inv any q: []string :: len(q) == len(splitOf(pattern, ",")) && len(q) > 0 && freshslice(q)
  inv any q: []string :: forall i: int {q[i]} :: 0 <= i && i < len(q) ==> q[i] == (if i < $k then strings.TrimSpace(splitOf(pattern, ",")[i]) else splitOf(pattern, ",")[i])
end
def nWild(p: string): int = len(splitOf(namesOf(p), ","))
# a segment the router refuses
def badSegment(p: string): bool = p != strings.TrimSpace(p) || misplaced(p) || (isRegexp(p) && (badRE(p, nWild(p)) || !validRE(usedRE(p, nWild(p)))))
fun okSeg(p: string): bool = !badSegment(p)
fun kind(p: string): byte = kindOf(p)
spec analyzePattern(pattern) -> typ, parsedPattern, wildcards, reg
  pan !okSeg(pattern)
  ens [C03,C04,C06] kind: typ == kind(pattern)
  ens [C03,C04,C06] text: parsedPattern == (if isAll(pattern) then strings.TrimPrefix(namesOf(pattern), "*") else namesOf(pattern))
  ens [C03,C04,C06] names: isNamed(pattern) ==> len(wildcards) == nWild(pattern) && (forall i: int {wildcards[i]} :: 0 <= i && i < len(wildcards) ==> wildcards[i] == strings.TrimSpace(splitOf(namesOf(pattern), ",")[i]))
  ens [C03,C04,C06] nonames: !isNamed(pattern) ==> len(wildcards) == 0
  ens [C03,C04,C06] expr: isRegexp(pattern) ==> reg != nil && reSrc(reg) == usedRE(pattern, nWild(pattern))
  ens [C03,C04,C06] noexpr: !isRegexp(pattern) ==> reg == nil
end
spec newNode(parent, pattern) -> n
  pan !okSeg(pattern)
  opt hide okSeg kind
  mod $nodes
  ens fresh(n) && n != nil && $nodes[n]
  ens only: forall x: *node {$nodes[x]} :: $nodes[x] ==> old($nodes[x]) || x == n
  ens n.parent == parent && n.pattern == pattern && n.typ == kind(pattern) && n.handlers == nil && n.matchNode == nil && n.subNodes == nil && n.endNodes == nil
  # name the place in its tree the new node was made for
  trust [C06] pathOf(n) == pathOf(parent) + "/" + pattern
  trust [C06] rootOf(n) == (if parent == nil then n else rootOf(parent))
  ens [C04] text: n.parsedPattern == (if isAll(pattern) then strings.TrimPrefix(namesOf(pattern), "*") else namesOf(pattern))
  ens [C04] names: isNamed(pattern) ==> len(n.wildcards) == nWild(pattern) && (forall i: int {n.wildcards[i]} :: 0 <= i && i < len(n.wildcards) ==> n.wildcards[i] == strings.TrimSpace(splitOf(namesOf(pattern), ",")[i]))
  ens [C04] nonames: !isNamed(pattern) ==> len(n.wildcards) == 0
  ens [C04] expr: isRegexp(pattern) ==> n.reg != nil && reSrc(n.reg) == usedRE(pattern, nWild(pattern))
end
decl pathOf(x: *node): string
decl rootOf(x: *node): *node
gvar $nodes arr[ref]bool
track C03,C04,C06 node $nodes
property C04 getparsedPattern partternRegexp getWildcards analyzePattern newNode
