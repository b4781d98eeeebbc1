package main

import (
	"fmt"
	"go/types"
	"strings"
)

// A Val is a Go value flattened into SMT components (or a structured executor-only value).
type Val struct {
	T    types.Type // nil for specification-only values
	C    []*Term
	Clo  *Closure
	Tup  []*Val
	Sp   *STy  // specification type of a specification-only value
	Addr *Addr // for pointers known to be an address path
	Iter *Iter
}

type Closure struct {
	Fn   interface{} // *ssa.Function
	Bind []*Val
	Sym  *Term
}

// Addr is an address: component arrays Heap+Path+suffix selected by a base reference (nil for
// globals) and element indices.
type Addr struct {
	Heap string
	Path string
	Ref  *Term
	Ixs  []*Term
	T    types.Type // type of the addressed value
	Arr  bool       // whole array object living in an element heap
}

type Iter struct {
	Map *Val // map (or string) being ranged over
	Str bool
	ID  int // key of the visited set / position in State.iters
}

func qual(p *types.Package) string { return p.Name() }

func typeStr(t types.Type) string { return types.TypeString(t, qual) }

var sanit = strings.NewReplacer(".", "_", "*", "p", "[", "_", "]", "_", " ", "_", "/", "_", "{", "_", "}", "_", "(", "_", ")", "_", ",", "_", ";", "_", "\"", "_")

var opaqueNames = map[string]bool{"reflect.StructField": false, "http.Cookie": false}

func inRepo(p *types.Package) bool {
	return p != nil && strings.HasPrefix(p.Path(), "github.com/meilihao/water")
}

// opaque struct types of dependencies are a single component of their own sort.
func isOpaqueStruct(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	if inRepo(n.Obj().Pkg()) {
		return false
	}
	if n.Obj().Pkg() == nil {
		return false
	}
	k := typeStr(t)
	if v, ok := opaqueNames[k]; ok {
		return v
	}
	for i := 0; i < st.NumFields(); i++ {
		if !st.Field(i).Exported() {
			return true
		}
	}
	return st.NumFields() == 0
}

type comp struct {
	Suffix string
	Sort   string
	T      types.Type // Go type of the leaf owning the component
}

// layout lists the components of a type.
func layout(t types.Type) []comp {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		info := u.Info()
		switch {
		case info&types.IsBoolean != 0:
			return []comp{{"", "Bool", t}}
		case info&types.IsInteger != 0:
			return []comp{{"", "Int", t}}
		case info&types.IsString != 0:
			return []comp{{"", "String", t}}
		case info&types.IsFloat != 0:
			return []comp{{"", "F64", t}}
		case info&types.IsComplex != 0:
			return []comp{{"", "Cplx", t}}
		}
		if u.Kind() == types.UntypedNil || u.Kind() == types.UnsafePointer {
			return []comp{{"", "Int", t}}
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return []comp{{"", "Int", t}}
	case *types.Slice:
		return []comp{{"#b", "Int", t}, {"#o", "Int", t}, {"#l", "Int", t}, {"#c", "Int", t}}
	case *types.Interface:
		return []comp{{"", "Iface", t}}
	case *types.Struct:
		if isOpaqueStruct(t) {
			return []comp{{"", "O_" + sanit.Replace(typeStr(t)), t}}
		}
		var out []comp
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			for _, c := range layout(f.Type()) {
				out = append(out, comp{"." + f.Name() + c.Suffix, c.Sort, c.T})
			}
		}
		return out
	case *types.Array:
		var out []comp
		for _, c := range layout(u.Elem()) {
			out = append(out, comp{"[]" + c.Suffix, arrSort("Int", c.Sort), c.T})
		}
		return out
	case *types.Tuple:
		var out []comp
		for i := 0; i < u.Len(); i++ {
			out = append(out, layout(u.At(i).Type())...)
		}
		return out
	}
	panic("layout: unsupported type " + t.String() + fmt.Sprintf(" %T", t.Underlying()))
}

// fieldRange gives the component range of field i in struct type t.
func fieldRange(t types.Type, i int) (lo, hi int) {
	st := t.Underlying().(*types.Struct)
	for j := 0; j < st.NumFields(); j++ {
		n := len(layout(st.Field(j).Type()))
		if j == i {
			return lo, lo + n
		}
		lo += n
	}
	panic("fieldRange")
}

func zeroOfSort(s string) *Term {
	switch s {
	case "Int":
		return tInt(0)
	case "Bool":
		return tFalse
	case "String":
		return tStr("")
	case "Iface":
		return app("inil", "Iface")
	case "F64":
		return app("f64zero", "F64")
	}
	if strings.HasPrefix(s, "(Array") {
		return tConstArr(s, zeroOfSort(arrElem(s)))
	}
	if strings.HasPrefix(s, "(Seq") {
		return tSeqEmpty(s)
	}
	return app("zero_"+sanit.Replace(s), s)
}

func zeroVal(t types.Type) *Val {
	if tp, ok := t.(*types.Tuple); ok {
		v := &Val{T: t}
		for i := 0; i < tp.Len(); i++ {
			v.Tup = append(v.Tup, zeroVal(tp.At(i).Type()))
		}
		return v
	}
	v := &Val{T: t}
	for _, c := range layout(t) {
		v.C = append(v.C, zeroOfSort(c.Sort))
	}
	return v
}

// heap family of an object of type t pointed to by a reference
func objHeap(t types.Type) string {
	t = types.Unalias(t)
	if a, ok := t.Underlying().(*types.Array); ok {
		return elemHeap(a.Elem())
	}
	if n, ok := t.(*types.Named); ok {
		if _, ok := n.Underlying().(*types.Struct); ok && !isOpaqueStruct(t) {
			return "H:" + typeStr(t)
		}
	}
	return "P:" + typeStr(t.Underlying()) + opaqueSuffix(t)
}

func opaqueSuffix(t types.Type) string {
	if isOpaqueStruct(t) {
		return typeStr(t)
	}
	return ""
}

// heap family of slice/array elements of type t. Named types share with their underlying type only if not struct.
func elemHeap(t types.Type) string { return "E:" + typeKey(t) }

func typeKey(t types.Type) string {
	t = types.Unalias(t)
	switch t.Underlying().(type) {
	case *types.Struct:
		return typeStr(t)
	case *types.Interface:
		return "iface"
	case *types.Pointer:
		return typeStr(t)
	}
	return typeStr(t.Underlying())
}

func mapHeap(t types.Type) string {
	m := t.Underlying().(*types.Map)
	return "M:" + typeKey(m.Key()) + ":" + typeKey(m.Elem())
}

func isPtrLike(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Slice, *types.Interface, *types.Signature:
		return true
	case *types.Struct:
		if isOpaqueStruct(t) {
			return false
		}
		for i := 0; i < u.NumFields(); i++ {
			if isPtrLike(u.Field(i).Type()) {
				return true
			}
		}
	case *types.Array:
		return isPtrLike(u.Elem())
	}
	return false
}

func intBits(b *types.Basic) (bits int, unsigned bool) {
	switch b.Kind() {
	case types.Int8:
		return 8, false
	case types.Int16:
		return 16, false
	case types.Int32, types.UntypedRune:
		return 32, false
	case types.Int, types.Int64, types.UntypedInt:
		return 64, false
	case types.Uint8:
		return 8, true
	case types.Uint16:
		return 16, true
	case types.Uint32:
		return 32, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, true
	}
	return 64, false
}

// ---- type tags for dynamic types ----
var tagOf = map[string]int64{}
var tagType = map[int64]types.Type{}

func typeTag(t types.Type) *Term {
	t = types.Unalias(t)
	k := types.TypeString(t, nil)
	if n, ok := tagOf[k]; ok {
		return tInt(n)
	}
	n := int64(len(tagOf) + 1)
	tagOf[k] = n
	tagType[n] = t
	return tInt(n)
}

func boxName(t types.Type) string {
	return "box!" + typeTag(t).I.String() + "_" + sanit.Replace(typeStr(t))
}

func boxVal(v *Val, t types.Type) *Term {
	return app(boxName(t), "Iface", v.C...)
}

func dynType(i *Term) *Term {
	if i.Op == "app" && strings.HasPrefix(i.Name, "box!") {
		s := i.Name[4:]
		n := int64(0)
		for _, ch := range s {
			if ch < '0' || ch > '9' {
				break
			}
			n = n*10 + int64(ch-'0')
		}
		return tInt(n)
	}
	if i.Op == "app" && i.Name == "inil" {
		return tInt(0)
	}
	if i.Op == "ite" {
		return tIte(i.Args[0], dynType(i.Args[1]), dynType(i.Args[2]))
	}
	return app("dyntype", "Int", i)
}

func unboxVal(i *Term, t types.Type) *Val {
	v := &Val{T: t}
	for j, c := range layout(t) {
		if i.Op == "app" && i.Name == boxName(t) {
			v.C = append(v.C, i.Args[j])
			continue
		}
		v.C = append(v.C, app(fmt.Sprintf("un%s_%d", boxName(t), j), c.Sort, i))
	}
	return v
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}
