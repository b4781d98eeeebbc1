package binding

# ---- the reflect package: what the binding code may rely on, and what it must not do ----
# shape: fixed for a given Value or Type
pures reflect.TypeOf reflect.ValueOf reflect.Value.Kind reflect.Value.Type reflect.Value.Len reflect.Value.Index reflect.Value.Field reflect.Value.NumField reflect.Value.Interface reflect.Value.CanSet
pures reflect.Type.Kind reflect.Type.Elem reflect.Type.Key reflect.Type.NumField reflect.Type.Field reflect.Type.Bits reflect.StructTag.Get reflect.StructTag.Lookup
# a value reached through an unexported field (embedded or not), in addressable memory
decl rsticky(v: reflect.Value): bool
decl rembed(v: reflect.Value): bool
decl raddr(v: reflect.Value): bool
# the place of a value in the order of allocation
decl rgen(v: reflect.Value): int
# the value of a number, a text
decl rint(n: int): reflect.Value
decl ruint(n: int): reflect.Value
decl rbool(b: bool): reflect.Value
decl rfloat(f: float64): reflect.Value
decl rstr(s: string): reflect.Value
# the type of what an interface value holds
decl rtypeOf(x: iface): iface
def readable(v: reflect.Value): bool = !rsticky(v) && !rembed(v)
def settable(v: reflect.Value): bool = raddr(v) && readable(v) && reflect.Value.Kind(v) != 0
def kindIn(v: reflect.Value, a: int, b: int): bool = reflect.Value.Kind(v) >= a && reflect.Value.Kind(v) <= b

axiom reflect_gen: forall v: reflect.Value {rgen(v)} :: rgen(v) >= 0
axiom reflect_len: forall x: reflect.Value {reflect.Value.Len(x)} :: reflect.Value.Len(x) >= 0
axiom reflect_kind: forall x: reflect.Value {reflect.Value.Kind(x)} :: reflect.Value.Kind(x) >= 0 && reflect.Value.Kind(x) <= 26 && (reflect.Value.Kind(x) != 0 ==> reflect.Value.Type(x) != nil && reflect.Value.Kind(x) == reflect.Type.Kind(reflect.Value.Type(x)))
axiom reflect_tkind: forall t: iface {reflect.Type.Kind(t)} :: reflect.Type.Kind(t) >= 1 && reflect.Type.Kind(t) <= 26
axiom reflect_telem: forall t: iface {reflect.Type.Elem(t)} :: reflect.Type.Elem(t) != nil
axiom reflect_tkey: forall t: iface {reflect.Type.Key(t)} :: reflect.Type.Key(t) != nil
axiom reflect_numfield: forall t: iface {reflect.Type.NumField(t)} :: reflect.Type.NumField(t) >= 0
axiom reflect_vfield: forall v: reflect.Value, i: int {reflect.Value.Field(v, i)} :: let e = reflect.Value.Field(v, i) in let f = reflect.Type.Field(reflect.Value.Type(v), i) in
  reflect.Value.Kind(e) != 0 && reflect.Value.Type(e) == f.Type && raddr(e) == raddr(v) && rgen(e) == rgen(v) && rsticky(e) == (rsticky(v) || f.PkgPath != "" && !f.Anonymous) && rembed(e) == (f.PkgPath != "" && f.Anonymous)
axiom reflect_index: forall v: reflect.Value, i: int {reflect.Value.Index(v, i)} :: let e = reflect.Value.Index(v, i) in
  reflect.Value.Kind(e) != 0 && reflect.Value.Type(e) == reflect.Type.Elem(reflect.Value.Type(v)) && rsticky(e) == rsticky(v) && rembed(e) == rembed(v) && (reflect.Value.Kind(v) == 23 ==> raddr(e)) && (reflect.Value.Kind(v) == 17 ==> raddr(e) == raddr(v))
axiom reflect_index_inj: forall v: reflect.Value, i: int, j: int {reflect.Value.Index(v, i), reflect.Value.Index(v, j)} :: reflect.Value.Index(v, i) == reflect.Value.Index(v, j) ==> i == j
axiom reflect_index_gen: forall v: reflect.Value, i: int {reflect.Value.Index(v, i)} :: rgen(reflect.Value.Index(v, i)) == rgen(v)
axiom reflect_valueof: forall x: iface {reflect.ValueOf(x)} :: readable(reflect.ValueOf(x)) && !raddr(reflect.ValueOf(x)) && (x != nil ==> reflect.Value.Kind(reflect.ValueOf(x)) != 0 && reflect.Value.Type(reflect.ValueOf(x)) == rtypeOf(x)) && (x == nil ==> reflect.Value.Kind(reflect.ValueOf(x)) == 0)
axiom reflect_typeof: forall x: iface {reflect.TypeOf(x)} :: x != nil ==> reflect.TypeOf(x) == rtypeOf(x)
axiom reflect_interface: forall v: reflect.Value {reflect.Value.Interface(v)} :: reflect.Value.Kind(v) != 0 && reflect.Value.Kind(v) != 20 ==> reflect.Value.Interface(v) != nil && rtypeOf(reflect.Value.Interface(v)) == reflect.Value.Type(v)
axiom reflect_sametype: forall x: iface, y: iface {rtypeOf(x), rtypeOf(y)} :: sametype(x, y) ==> rtypeOf(x) == rtypeOf(y)
axiom reflect_difftype: forall x: iface, y: iface {rtypeOf(x), rtypeOf(y)} :: rtypeOf(x) == rtypeOf(y) ==> sametype(x, y)
axiom reflect_canset: forall v: reflect.Value {reflect.Value.CanSet(v)} :: reflect.Value.CanSet(v) == (raddr(v) && readable(v))
# sizes of the numeric kinds (int and uint have 64 bits; a size of 0 asks for theirs)
fun kindBits(k: int): int = if k == 3 || k == 8 then 8 else if k == 4 || k == 9 then 16 else if k == 5 || k == 10 || k == 13 then 32 else 64
axiom reflect_bits: forall t: iface {reflect.Type.Bits(t)} :: reflect.Type.Bits(t) == kindBits(reflect.Type.Kind(t))
axiom parse_int0: forall s: string {fst(strconv.ParseInt(s, 10, 0))} :: fst(strconv.ParseInt(s, 10, 0)) == fst(strconv.ParseInt(s, 10, 64))
axiom parse_int0e: forall s: string {snd(strconv.ParseInt(s, 10, 0))} :: snd(strconv.ParseInt(s, 10, 0)) == snd(strconv.ParseInt(s, 10, 64))
axiom parse_uint0: forall s: string {fst(strconv.ParseUint(s, 10, 0))} :: fst(strconv.ParseUint(s, 10, 0)) == fst(strconv.ParseUint(s, 10, 64))
axiom parse_uint0e: forall s: string {snd(strconv.ParseUint(s, 10, 0))} :: snd(strconv.ParseUint(s, 10, 0)) == snd(strconv.ParseUint(s, 10, 64))

# what these functions do not accept
ext reflect.Value.Interface(v) -> r
  req [C18] reflect.Value.Kind(v) != 0 && readable(v)
  ens r == reflect.Value.Interface(v)
end
ext reflect.Value.Type(v) -> r
  req [C18] reflect.Value.Kind(v) != 0
  ens r == reflect.Value.Type(v)
end
ext reflect.Value.Index(v, i) -> r
  req [C18] (reflect.Value.Kind(v) == 23 || reflect.Value.Kind(v) == 17 || reflect.Value.Kind(v) == 24) && 0 <= i && i < reflect.Value.Len(v)
  ens r == reflect.Value.Index(v, i)
end
ext reflect.Value.Len(v) -> r
  req [C18] reflect.Value.Kind(v) == 23 || reflect.Value.Kind(v) == 17 || reflect.Value.Kind(v) == 24 || reflect.Value.Kind(v) == 21 || reflect.Value.Kind(v) == 18
  ens r == reflect.Value.Len(v)
end
ext reflect.Value.Field(v, i) -> r
  req [C18] reflect.Value.Kind(v) == 25 && 0 <= i && i < reflect.Type.NumField(reflect.Value.Type(v))
  ens r == reflect.Value.Field(v, i)
end
ext reflect.Value.NumField(v) -> r
  req [C18] reflect.Value.Kind(v) == 25
  ens r == reflect.Type.NumField(reflect.Value.Type(v))
end
def telem(t: iface): bool = let k = reflect.Type.Kind(t) in k == 17 || k == 18 || k == 21 || k == 22 || k == 23
ext reflect.Type.Elem(t) -> r
  req [C18] telem(t)
  ens r == reflect.Type.Elem(t)
end
ext reflect.Type.Key(t) -> r
  req [C18] reflect.Type.Kind(t) == 21
  ens r == reflect.Type.Key(t)
end
ext reflect.Type.NumField(t) -> r
  req [C18] reflect.Type.Kind(t) == 25
  ens r == reflect.Type.NumField(t)
end
ext reflect.Type.Bits(t) -> r
  req [C18] reflect.Type.Kind(t) >= 2 && reflect.Type.Kind(t) <= 16
  ens r == reflect.Type.Bits(t)
end
ext reflect.Type.Field(t, i) -> r
  req [C18] reflect.Type.Kind(t) == 25 && 0 <= i && i < reflect.Type.NumField(t)
  ens r == reflect.Type.Field(t, i)
end

# memory: what each location holds; for pointers, whether nil and what they point to
gvar $rset arr[reflect.Value]reflect.Value
gvar $rnil arr[reflect.Value]bool
gvar $relem arr[reflect.Value]reflect.Value
gvar $rtop int
ext reflect.Value.IsNil(v) -> r
  req [C18] kindIn(v, 18, 23) || reflect.Value.Kind(v) == 26
  ens r == $rnil[v]
  ens forall x: iface {reflect.ValueOf(x)} :: v == reflect.ValueOf(x) && !r ==> (istype(x, "*map[string]string") ==> unbox(x, "*map[string]string") != nil) && (istype(x, "*map[string][]string") ==> unbox(x, "*map[string][]string") != nil)
  ens forall x: iface {reflect.ValueOf(x)} :: v == reflect.ValueOf(x) && !r ==> (istype(x, "map[string]string") ==> unbox(x, "map[string]string") != nil) && (istype(x, "map[string][]string") ==> unbox(x, "map[string][]string") != nil)
  ens !r ==> (let x = reflect.Value.Interface(v) in (istype(x, "map[string]string") ==> unbox(x, "map[string]string") != nil) && (istype(x, "map[string][]string") ==> unbox(x, "map[string][]string") != nil))
end
def elemOf(v: reflect.Value, e: reflect.Value): bool = reflect.Value.Kind(v) == 22 ==> (if $rnil[v] then reflect.Value.Kind(e) == 0 else reflect.Value.Kind(e) != 0 && reflect.Value.Type(e) == reflect.Type.Elem(reflect.Value.Type(v)) && raddr(e) && rsticky(e) == rsticky(v) && rembed(e) == rembed(v))
ext reflect.Value.Elem(v) -> e
  req [C18] reflect.Value.Kind(v) == 22 || reflect.Value.Kind(v) == 20
  ens e == $relem[v] && elemOf(v, e)
  ens rgen(v) < $rtop ==> rgen(e) < $rtop
end
ext reflect.Value.Addr(v) -> p
  req [C18] raddr(v)
  ens rsticky(p) == rsticky(v) && rembed(p) == rembed(v) && reflect.Value.Kind(p) == 22
end
ext reflect.New(t) -> p
  req [C18] t != nil
  mod $rtop
  ens $rtop == old($rtop) + 1
  ens reflect.Value.Kind(p) == 22 && readable(p) && !$rnil[p] && reflect.Type.Elem(reflect.Value.Type(p)) == t && elemOf(p, $relem[p]) && rgen($relem[p]) == old($rtop)
end
ext reflect.MakeSlice(t, n, c) -> v
  req [C18] t != nil && reflect.Type.Kind(t) == 23 && 0 <= n && n <= c
  mod $rtop
  ens $rtop == old($rtop) + 1
  ens reflect.Value.Kind(v) == 23 && readable(v) && reflect.Value.Type(v) == t && reflect.Value.Len(v) == n && rgen(v) == old($rtop)
end
# a value may be stored in a location of its type, and a plain pointer in one of a pointer type to the same
def assignable(w: iface, t: iface): bool = w == t || reflect.Type.Kind(t) == 22 && reflect.Type.Kind(w) == 22 && reflect.Type.Elem(w) == reflect.Type.Elem(t)
ext reflect.Value.Set(v, w)
  req [C18] settable: settable(v)
  req [C18] stored: readable(w) && reflect.Value.Kind(w) != 0 && assignable(reflect.Value.Type(w), reflect.Value.Type(v))
  mod $rset, $rnil, $relem
  ens $rset == store(old($rset), v, w) && $rnil == store(old($rnil), v, old($rnil)[w]) && $relem == store(old($relem), v, old($relem)[w])
end
ext reflect.Value.SetInt(v, n)
  req [C18] settable(v) && kindIn(v, 2, 6)
  mod $rset
  ens $rset == store(old($rset), v, rint(n))
end
ext reflect.Value.SetUint(v, n)
  req [C18] settable(v) && kindIn(v, 7, 12)
  mod $rset
  ens $rset == store(old($rset), v, ruint(n))
end
ext reflect.Value.SetBool(v, b)
  req [C18] settable(v) && kindIn(v, 1, 1)
  mod $rset
  ens $rset == store(old($rset), v, rbool(b))
end
ext reflect.Value.SetFloat(v, f)
  req [C18] settable(v) && kindIn(v, 13, 14)
  mod $rset
  ens $rset == store(old($rset), v, rfloat(f))
end
ext reflect.Value.SetString(v, s)
  req [C18] settable(v) && kindIn(v, 24, 24)
  mod $rset
  ens $rset == store(old($rset), v, rstr(s))
end
ext github.com/json-iterator/go.API.Unmarshal(a, data, v) -> err
  mod $rset, $rnil, $relem, $rtop
  ens $rtop >= old($rtop)
end

# ---- C17: what a text denotes for a kind of field ----
def orText(s: string, d: string): string = if s == "" then d else s
def isInt(k: int): bool = k >= 2 && k <= 6
def isUint(k: int): bool = k >= 7 && k <= 11
def isFloat(k: int): bool = k == 13 || k == 14
fun isScalar(k: int): bool = isInt(k) || isUint(k) || k == 1 || isFloat(k) || k == 24
fun denotes(k: int, s: string): reflect.Value = if isInt(k) then rint(fst(strconv.ParseInt(orText(s, "0"), 10, kindBits(k)))) else if isUint(k) then ruint(fst(strconv.ParseUint(orText(s, "0"), 10, kindBits(k))))
  else if k == 1 then rbool(fst(strconv.ParseBool(orText(s, "false")))) else if isFloat(k) then rfloat(fst(strconv.ParseFloat(orText(s, "0.0"), kindBits(k)))) else rstr(s)
fun valid(k: int, s: string): bool = if isInt(k) then snd(strconv.ParseInt(orText(s, "0"), 10, kindBits(k))) == nil else if isUint(k) then snd(strconv.ParseUint(orText(s, "0"), 10, kindBits(k))) == nil
  else if k == 1 then snd(strconv.ParseBool(orText(s, "false"))) == nil else if isFloat(k) then snd(strconv.ParseFloat(orText(s, "0.0"), kindBits(k))) == nil else true
def memSame(): bool = $rset == old($rset) && $rnil == old($rnil) && $relem == old($relem)

spec setIntField(val, bitSize, field) -> err
  req settable(field) && isInt(reflect.Value.Kind(field)) && (bitSize == kindBits(reflect.Value.Kind(field)) || bitSize == 0 && reflect.Value.Kind(field) == 2)
  mod $rset
  ens [C17] (err == nil) == valid(reflect.Value.Kind(field), val)
  ens [C17] $rset == (if err == nil then store(old($rset), field, denotes(reflect.Value.Kind(field), val)) else old($rset))
end
spec setUintField(val, bitSize, field) -> err
  req settable(field) && isUint(reflect.Value.Kind(field)) && (bitSize == kindBits(reflect.Value.Kind(field)) || bitSize == 0 && reflect.Value.Kind(field) == 7)
  mod $rset
  ens [C17] (err == nil) == valid(reflect.Value.Kind(field), val)
  ens [C17] $rset == (if err == nil then store(old($rset), field, denotes(reflect.Value.Kind(field), val)) else old($rset))
end
spec setBoolField(val, field) -> err
  req settable(field) && reflect.Value.Kind(field) == 1
  mod $rset
  ens [C17] (err == nil) == valid(reflect.Value.Kind(field), val)
  ens [C17] $rset == (if err == nil then store(old($rset), field, denotes(reflect.Value.Kind(field), val)) else old($rset))
end
spec setFloatField(val, bitSize, field) -> err
  req settable(field) && isFloat(reflect.Value.Kind(field)) && bitSize == kindBits(reflect.Value.Kind(field))
  mod $rset
  ens [C17] (err == nil) == valid(reflect.Value.Kind(field), val)
  ens [C17] $rset == (if err == nil then store(old($rset), field, denotes(reflect.Value.Kind(field), val)) else old($rset))
end
property C17 setIntField setUintField setBoolField setFloatField

# times and durations are stored whole, or not at all
pures time.ParseDuration time.LoadLocation
spec setTimeDuration(val, value, field) -> err
  req settable(value) && reflect.Value.Type(value) == rtypeOf(box(zero("time.Duration")))
  mod $rset, $rnil, $relem
  ens [C17] err != nil ==> memSame()
  ens [C17] (err == nil) == (snd(time.ParseDuration(val)) == nil)
  ens [C17] err == nil ==> $rset == store(old($rset), value, reflect.ValueOf(box(as(fst(time.ParseDuration(val)), "time.Duration"))))
end
def isTime(v: reflect.Value): bool = reflect.Value.Type(v) == rtypeOf(box(zero("time.Time")))
def onlyAt(v: reflect.Value): bool = forall x: reflect.Value {$rset[x]} :: x != v ==> $rset[x] == old($rset)[x]
spec setTimeField(val, structField, value) -> err
  req settable(value) && isTime(value)
  mod $rset, $rnil, $relem
  ens [C17] err != nil ==> memSame()
  ens [C17] onlyAt(value)
  ens [C17] err == nil ==> istype(reflect.Value.Interface($rset[value]), "time.Time") || reflect.Value.Type($rset[value]) == reflect.Value.Type(value)
end
spec setTimeField2(val, opt, value) -> err
  req opt != nil && settable(value) && isTime(value)
  mod $rset, $rnil, $relem
  ens [C17] err != nil ==> memSame()
  ens [C17] onlyAt(value)
  ens [C17] err == nil ==> reflect.Value.Type($rset[value]) == reflect.Value.Type(value)
end

# one text into one field: the field itself, or what its pointer points to (allocated if need be)
def bindTgt(v: reflect.Value): reflect.Value = if reflect.Value.Kind(v) == 22 then $relem[v] else v
def isDur(v: reflect.Value): bool = istype(reflect.Value.Interface(v), "time.Duration")
def tkind(v: reflect.Value): int = if reflect.Value.Kind(v) == 22 then reflect.Type.Kind(reflect.Type.Elem(reflect.Value.Type(v))) else reflect.Value.Kind(v)
spec setWithProperType2(typeField, opt, valueKind, val, structField, nameInTag) -> err
  req opt != nil && settable(structField) && valueKind == reflect.Value.Kind(structField) && rgen(structField) < $rtop
  asm json != nil && errUnknownType != nil
  mod $rset, $rnil, $relem, $rtop
  ens [C17] scalar: isScalar(tkind(structField)) ==> (err == nil) == valid(tkind(structField), val) && (err == nil ==> $rset[bindTgt(structField)] == denotes(tkind(structField), val))
  ens [C17,C18] frame: isScalar(tkind(structField)) ==> forall x: reflect.Value {$rset[x]} :: x != structField && x != bindTgt(structField) ==> $rset[x] == old($rset)[x] && $rnil[x] == old($rnil)[x] && $relem[x] == old($relem)[x]
  ens [C17,C18] same: isScalar(reflect.Value.Kind(structField)) ==> (err != nil ==> $rset == old($rset)) && $rnil == old($rnil) && $relem == old($relem) && $rtop == old($rtop)
  ens [C17] other: !isScalar(tkind(structField)) && tkind(structField) != 25 && tkind(structField) != 21 ==> err != nil
  ens $rtop >= old($rtop)
end
spec setWithProperType(val, value, field) -> err
  req settable(value)
  asm json != nil && errUnknownType != nil
  mod $rset, $rnil, $relem, $rtop
  ens [C17] scalar: isScalar(reflect.Value.Kind(value)) && !isDur(value) ==> (err == nil) == valid(reflect.Value.Kind(value), val) && (err == nil ==> $rset[value] == denotes(reflect.Value.Kind(value), val))
  ens [C17] duration: reflect.Value.Kind(value) == 6 && isDur(value) ==> (err == nil) == (snd(time.ParseDuration(val)) == nil)
  ens [C17] frame: isScalar(reflect.Value.Kind(value)) ==> $rset == (if err == nil then store(old($rset), value, $rset[value]) else old($rset)) && $rtop == old($rtop)
  ens [C17] other: !isScalar(reflect.Value.Kind(value)) && reflect.Value.Kind(value) != 25 && reflect.Value.Kind(value) != 21 ==> err != nil
  ens $rtop >= old($rtop)
end
property C17 setTimeDuration setTimeField setTimeField2 setWithProperType2 setWithProperType
property C18 setTimeField2 setWithProperType2

# several texts into a slice or an array
def durType(t: iface): bool = t == rtypeOf(box(zero("time.Duration")))
def elemT(v: reflect.Value): iface = reflect.Type.Elem(reflect.Value.Type(v))
def listKind(v: reflect.Value): bool = reflect.Value.Kind(v) == 23 || reflect.Value.Kind(v) == 17 && raddr(v)
# the first n places hold what the texts denote
def holds(v: reflect.Value, q: []string, n: int): bool = forall i: int {reflect.Value.Index(v, i)} :: 0 <= i && i < n ==> valid(reflect.Type.Kind(elemT(v)), q[i]) && $rset[reflect.Value.Index(v, i)] == denotes(reflect.Type.Kind(elemT(v)), q[i])
def plain(v: reflect.Value): bool = isScalar(reflect.Type.Kind(elemT(v))) && !durType(elemT(v))
spec setArray(vals, value, field) -> err
  opt hide denotes valid
  req listKind(value) && readable(value) && len(vals) <= reflect.Value.Len(value)
  asm json != nil && errUnknownType != nil
  mod $rset, $rnil, $relem, $rtop
  inv plain(value) ==> holds(value, vals, $k)
  inv plain(value) ==> forall x: reflect.Value {$rset[x]} :: (forall i: int {reflect.Value.Index(value, i)} :: x != reflect.Value.Index(value, i)) ==> $rset[x] == entry($rset)[x]
  inv $rtop >= entry($rtop)
  ens [C17] all: err == nil && plain(value) ==> holds(value, vals, len(vals))
  ens [C17] wrong: err != nil && plain(value) ==> exists i: int :: 0 <= i && i < len(vals) && !valid(reflect.Type.Kind(elemT(value)), vals[i])
  ens [C17] frame: plain(value) ==> forall x: reflect.Value {$rset[x]} :: (forall i: int {reflect.Value.Index(value, i)} :: x != reflect.Value.Index(value, i)) ==> $rset[x] == old($rset)[x]
  ens $rtop >= old($rtop)
end
spec setSlice(vals, value, field) -> err
  opt hide denotes valid
  req reflect.Value.Kind(value) == 23 && settable(value) && rgen(value) < $rtop
  mod $rset, $rnil, $relem, $rtop
  ens [C17] all: err == nil && plain(value) ==> elemT($rset[value]) == elemT(value) && reflect.Value.Len($rset[value]) == len(vals) && holds($rset[value], vals, len(vals))
  ens [C17] wrong: err != nil && plain(value) ==> $rset[value] == old($rset)[value]
  ens $rtop >= old($rtop)
end
property C17 setArray setSlice

# the name a field is bound by, and the default of its tag
fun headOf(s: string, sep: string): string = if indexof(s, sep) < 0 then s else s[0:indexof(s, sep)]
fun tailOf(s: string, sep: string): string = if indexof(s, sep) < 0 then "" else s[indexof(s, sep)+len(sep):len(s)]
fun defOf(t: string, cur: string): string = if t == "" then cur else let o = headOf(t, ",") in defOf(tailOf(t, ","), if headOf(o, "=") == "default" then tailOf(o, "=") else cur)
def tagOf(f: reflect.StructField, tag: string): string = reflect.StructTag.Get(f.Tag, tag)
def nameOf(f: reflect.StructField, tag: string): string = let h = headOf(tagOf(f, tag), ",") in if h == "" then "-" else if tag == "header" && h != "-" then net/textproto.CanonicalMIMEHeaderKey(h) else h
def defaultOf(f: reflect.StructField, tag: string): string = defOf(tailOf(tagOf(f, tag), ","), "")
spec head(str, sep) -> h, t
  req sep != ""
  ens h == headOf(str, sep) && t == tailOf(str, sep)
  ens len(t) < len(str) || len(str) == 0 && t == ""
end
spec parseFormName(typeField, tag) -> name, so
  opt hide headOf tailOf
  inv any tail: string, p: *setOptions :: defOf(tail, p.defaultValue) == defaultOf(typeField, tag)
  ens [C17,C18] name: name == nameOf(typeField, tag)
  ens [C17,C18] so != nil && so.defaultValue == defaultOf(typeField, tag)
  ens [C17] time: so.timeFormat == tagOf(typeField, "time_format") && so.timeUtc == tagOf(typeField, "time_utc") && so.timeLocation == tagOf(typeField, "time_location")
  ens fresh(so)
end
property C17 head parseFormName
property C18 head parseFormName

# ---- the value of one field ----
def submitted(form: map[string][]string, f: reflect.StructField, tag: string): bool = nameOf(f, tag) in dom(form)
def textN(form: map[string][]string, f: reflect.StructField, tag: string): int = if submitted(form, f, tag) then len(form[nameOf(f, tag)]) else if defaultOf(f, tag) != "" then 1 else 0
def text(form: map[string][]string, f: reflect.StructField, tag: string, i: int): string = if submitted(form, f, tag) then form[nameOf(f, tag)][i] else defaultOf(f, tag)
def given(form: map[string][]string, f: reflect.StructField, tag: string): bool = submitted(form, f, tag) || defaultOf(f, tag) != ""
def fileType(): iface = rtypeOf(box(zero("*mime/multipart.FileHeader")))
def numeric(v: reflect.Value): bool = isScalar(reflect.Type.Kind(elemT(v)))
spec tryToSetValue2(value, typeField, form, formfile, tag) -> err
  req settable(value) && rgen(value) < $rtop
  opt hide headOf tailOf defOf denotes valid 
  asm json != nil && errUnknownType != nil && multipartFileType == fileType()
  mod $rset, $rnil, $relem, $rtop
  inv $rtop >= entry($rtop)
  inv any slice: reflect.Value :: numeric(value) ==> forall j: int {reflect.Value.Index(slice, j)} :: 0 <= j && j < i ==> $rset[reflect.Value.Index(slice, j)] == denotes(reflect.Type.Kind(elemT(value)), text(form, typeField, tag, j))
  inv any slice: reflect.Value :: numeric(value) ==> $rset[value] == entry($rset)[value]
  ens [C17] scalar: nameOf(typeField, tag) != "-" && textN(form, typeField, tag) > 0 && isScalar(tkind(value)) ==> (err == nil) == valid(tkind(value), text(form, typeField, tag, 0)) && (err == nil ==> $rset[bindTgt(value)] == denotes(tkind(value), text(form, typeField, tag, 0)))
  ens [C17] slice: nameOf(typeField, tag) != "-" && textN(form, typeField, tag) > 0 && reflect.Value.Kind(value) == 23 && isScalar(reflect.Type.Kind(elemT(value))) && err == nil ==> reflect.Value.Len($rset[value]) == textN(form, typeField, tag) && (forall i: int {reflect.Value.Index($rset[value], i)} :: 0 <= i && i < textN(form, typeField, tag) ==> $rset[reflect.Value.Index($rset[value], i)] == denotes(reflect.Type.Kind(elemT(value)), text(form, typeField, tag, i)))
  ens [C17,C18] untouched: nameOf(typeField, tag) == "-" || !given(form, typeField, tag) && !(nameOf(typeField, tag) in dom(formfile)) ==> err == nil && memSame()
  ens [C17,C18] none: given(form, typeField, tag) && textN(form, typeField, tag) == 0 ==> err == nil && memSame()
  ens $rtop >= old($rtop)
end
property C17 tryToSetValue2
property C18 tryToSetValue2

def firstOf(form: map[string][]string, k: string, d: string): string = if !(k in dom(form)) then d else if len(form[k]) > 0 then form[k][0] else ""
spec setByForm(value, field, form, tagValue, opt) -> set, err
  opt hide denotes valid
  req settable(value) && rgen(value) < $rtop
  asm json != nil && errUnknownType != nil
  mod $rset, $rnil, $relem, $rtop
  ens [C17,C18] untouched: !(tagValue in dom(form)) && opt.defaultValue == "" ==> !set && err == nil && memSame()
  ens [C17] scalar: (tagValue in dom(form) || opt.defaultValue != "") && isScalar(reflect.Value.Kind(value)) && !isDur(value) ==> set && (err == nil) == valid(reflect.Value.Kind(value), firstOf(form, tagValue, opt.defaultValue)) && (err == nil ==> $rset[value] == denotes(reflect.Value.Kind(value), firstOf(form, tagValue, opt.defaultValue)))
  ens [C17] slice: (tagValue in dom(form) || opt.defaultValue != "") && reflect.Value.Kind(value) == 23 && plain(value) && err == nil ==> reflect.Value.Len($rset[value]) == (if tagValue in dom(form) then len(form[tagValue]) else 1) && (forall i: int {reflect.Value.Index($rset[value], i)} :: 0 <= i && i < (if tagValue in dom(form) then len(form[tagValue]) else 1) ==> $rset[reflect.Value.Index($rset[value], i)] == denotes(reflect.Type.Kind(elemT(value)), if tagValue in dom(form) then form[tagValue][i] else opt.defaultValue))
  ens [C17] array: (tagValue in dom(form) || opt.defaultValue != "") && reflect.Value.Kind(value) == 17 && plain(value) && err == nil ==> reflect.Value.Len(value) == (if tagValue in dom(form) then len(form[tagValue]) else 1) && (forall i: int {reflect.Value.Index(value, i)} :: 0 <= i && i < reflect.Value.Len(value) ==> $rset[reflect.Value.Index(value, i)] == denotes(reflect.Type.Kind(elemT(value)), if tagValue in dom(form) then form[tagValue][i] else opt.defaultValue))
  ens $rtop >= old($rtop)
end
spec formSource.TrySet(form, value, field, tagValue, opt) -> set, err
  req settable(value) && rgen(value) < $rtop
  mod $rset, $rnil, $relem, $rtop
  callassert [C17] binding.setByForm :: value == my_value && form == my_form && tagValue == my_tagValue && opt == my_opt
  ens [C17] ncalls("binding.setByForm") == 1
  ens $rtop >= old($rtop)
end
spec headerSource.TrySet(hs, value, field, tagValue, opt) -> set, err
  req settable(value) && rgen(value) < $rtop
  mod $rset, $rnil, $relem, $rtop
  callassert [C17] binding.setByForm :: value == my_value && form == my_hs && tagValue == net/textproto.CanonicalMIMEHeaderKey(my_tagValue) && opt == my_opt
  ens [C17] ncalls("binding.setByForm") == 1
  ens $rtop >= old($rtop)
end
property C17 setByForm formSource.TrySet headerSource.TrySet

# ---- C18: which fields are touched at all ----
def meant(f: reflect.StructField, tag: string): bool = (f.PkgPath == "" || f.Anonymous) && headOf(tagOf(f, tag), ",") != "-"
def fieldAt(v: reflect.Value, i: int): reflect.StructField = reflect.Type.Field(reflect.Value.Type(v), i)
def isField(v: reflect.Value, i: int): bool = 0 <= i && i < reflect.Type.NumField(reflect.Value.Type(v))
def structVal(v: reflect.Value): bool = reflect.Value.Kind(v) == 25 && raddr(v) && !rsticky(v) && rgen(v) < $rtop
spec _mapForm(formStruct, form, formfile, tag) -> err
  opt hide headOf tailOf defOf
  req structVal(formStruct)
  mod $rset, $rnil, $relem, $rtop
  inv 0 <= i
  inv $rtop >= entry($rtop)
  callassert [C18] reflect.Value.Set :: exists i: int {reflect.Value.Field(formStruct, i)} :: isField(formStruct, i) && meant(fieldAt(formStruct, i), tag) && v == reflect.Value.Field(formStruct, i) && reflect.Value.Kind(v) == 22 && $rnil[v]
  callassert [C18] binding.tryToSetValue2 :: form == my_form && formfile == my_formfile && tag == my_tag && typeField.PkgPath == "" && meant(typeField, tag)
  callassert [C18] binding.tryToSetValue2 :: exists i: int {reflect.Value.Field(formStruct, i)} :: isField(formStruct, i) && typeField == fieldAt(formStruct, i) && (value == reflect.Value.Field(formStruct, i) || reflect.Value.Kind(reflect.Value.Field(formStruct, i)) == 22)
  callassert [C18] binding._mapForm :: form == my_form && formfile == my_formfile && tag == my_tag
  callassert [C18] binding._mapForm :: exists i: int {reflect.Value.Field(my_formStruct, i)} :: isField(my_formStruct, i) && meant(fieldAt(my_formStruct, i), tag) && (formStruct == reflect.Value.Field(my_formStruct, i) || reflect.Value.Kind(reflect.Value.Field(my_formStruct, i)) == 22)
  ens $rtop >= old($rtop)
end
property C18 _mapForm

# a map as a target: it is made if need be, and gets the values by their names
spec setFormMap2(obj, el, form) -> err
  req el != nil && reflect.Type.Kind(el) == 21
  mod heap P:map[string]string
  mod heap P:map[string][]string
  mod heap M:string:string#d
  mod heap M:string:string#v
  mod heap M:string:[]string#d
  mod heap M:string:[]string#v#b
  mod heap M:string:[]string#v#o
  mod heap M:string:[]string#v#l
  mod heap M:string:[]string#v#c
  req (istype(obj, "*map[string]string") ==> unbox(obj, "*map[string]string") != nil) && (istype(obj, "*map[string][]string") ==> unbox(obj, "*map[string][]string") != nil)
  ens [C18] kind: !istype(obj, "*map[string]string") && !istype(obj, "*map[string][]string") ==> err != nil
end
property C18 setFormMap2

# the other way of binding (Bind2): the name falls back to the field's own
spec tryToSetValue(value, field, st, tag) -> set, err
  opt hide headOf tailOf
  req settable(value) && rgen(value) < $rtop && st != nil
  mod $rset, $rnil, $relem, $rtop
  inv any tail: string, p: *setOptions :: defOf(tail, p.defaultValue) == defaultOf(field, tag)
  callassert [C17] binding.setter.TrySet :: value == my_value && field == my_field && key == (if headOf(tagOf(field, tag), ",") == "" then field.Name else headOf(tagOf(field, tag), ",")) && opt.defaultValue == defaultOf(field, tag)
  ens [C17] once: ncalls("binding.setter.TrySet") == (if headOf(tagOf(field, tag), ",") == "" && field.Name == "" then 0 else 1)
  ens [C18] untouched: headOf(tagOf(field, tag), ",") == "" && field.Name == "" ==> !set && err == nil && memSame()
  ens $rtop >= old($rtop)
end
# a field is left alone when it is excluded, and what cannot be set is skipped
spec mapping(value, field, setter, tag) -> set, err
  opt hide headOf tailOf
  req !rsticky(value) && (raddr(value) ==> reflect.Value.Kind(value) != 0) && rgen(value) < $rtop && setter != nil
  mod $derr, $rset, $rnil, $relem, $rtop
  inv 0 <= i
  inv $rtop >= entry($rtop)
  callassert [C17,C18] binding.tryToSetValue :: value == my_value && field == my_field && st == my_setter && tag == my_tag
  callassert [C17,C18] binding.mapping :: setter == my_setter && tag == my_tag
  callassert [C18] binding.mapping :: reflect.Value.Kind(my_value) == 22 && field == my_field || isField(my_value, 0)
  ens [C17,C18] excluded: headOf(tagOf(field, tag), ",") == "-" ==> !set && err == nil && memSame()
  trust err == $derr
  ens $rtop >= old($rtop)
end
property C18 mapping tryToSetValue


# uploaded files into a field
spec setByMultipartFormFile(value, field, files) -> set, err
  req settable(value) && rgen(value) < $rtop && len(files) > 0
  req forall i: int {files[i]} :: 0 <= i && i < len(files) ==> files[i] != nil
  mod $rset, $rnil, $relem, $rtop
  ens [C18] untouched: reflect.Value.Kind(value) != 22 && reflect.Value.Kind(value) != 25 && reflect.Value.Kind(value) != 23 && reflect.Value.Kind(value) != 17 ==> err != nil && memSame()
  ens $rtop >= old($rtop)
end
spec setArrayOfMultipartFormFiles(value, field, files) -> set, err
  req listKind(value) && readable(value) && rgen(value) < $rtop
  req forall i: int {files[i]} :: 0 <= i && i < len(files) ==> files[i] != nil
  mod $rset, $rnil, $relem, $rtop
  inv $rtop >= entry($rtop)
  ens [C18] length: reflect.Value.Len(value) != len(files) ==> err != nil && memSame()
  ens $rtop >= old($rtop)
end
spec multipartForm.TrySet(m, value, field, key, opt) -> set, err
  req settable(value) && rgen(value) < $rtop && m != nil
  asm forall k: string, i: int {m.File[k][i]} :: 0 <= i && i < len(m.File[k]) ==> m.File[k][i] != nil
  mod $rset, $rnil, $relem, $rtop
  callassert [C18] binding.setByMultipartFormFile :: value == my_value && files == m.File[key] && key in dom(m.File)
  callassert [C17,C18] binding.setByForm :: value == my_value && form == my_m.Value && tagValue == my_key && opt == my_opt
  ens $rtop >= old($rtop)
end
property C17 multipartForm.TrySet
property C18 setByMultipartFormFile setArrayOfMultipartFormFiles multipartForm.TrySet formSource.TrySet headerSource.TrySet setByForm setSlice setArray setWithProperType setTimeField setTimeDuration setIntField setUintField setBoolField setFloatField
property C18 mapFormByTag
property C18 validatorV10.ValidateStruct formBinding.Bind formBinding.Bind2 formMultipartBinding.Bind formMultipartBinding.Bind2 headerBinding.Bind headerBinding.Bind2 queryBinding.Bind queryBinding.Bind2 uriBinding.Bind uriBinding.Bind2

# ---- the variables the contracts above rely on: set once, when the program starts ----
spec init()
  opt noframe
  # the kind of the type *time.Time is Ptr
  asm reflect.Type.Kind(rtypeOf(box(zero("*time.Time")))) == 22
  ens [C18] unknown: errUnknownType != nil
  ens [C18] file: multipartFileType == fileType()
end
property C18 init
onlywriters C18 errUnknownType: init
onlywriters C18 multipartFileType: init
