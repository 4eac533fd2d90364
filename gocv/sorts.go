package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"sync"
)

type unsupported struct{ msg string }

func unsup(f string, a ...interface{}) { panic(unsupported{fmt.Sprintf(f, a...)}) }

func tname(t types.Type) string {
	return types.TypeString(types.Unalias(t), func(p *types.Package) string { return p.Name() })
}

func under(t types.Type) types.Type { return t.Underlying() }

func isStruct(t types.Type) bool { _, ok := under(t).(*types.Struct); return ok }
func isArray(t types.Type) bool  { _, ok := under(t).(*types.Array); return ok }
func isIface(t types.Type) bool  { _, ok := under(t).(*types.Interface); return ok }
func isSlice(t types.Type) bool  { _, ok := under(t).(*types.Slice); return ok }
func isString(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isInteger(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isByteType(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Kind() == types.Uint8
}
func isByteSlice(t types.Type) bool {
	s, ok := under(t).(*types.Slice)
	return ok && isByteType(s.Elem())
}
func ptrElem(t types.Type) (types.Type, bool) {
	p, ok := under(t).(*types.Pointer)
	if !ok {
		return nil, false
	}
	return p.Elem(), true
}

func sani(s string) string {
	var b strings.Builder
	for _, r := range s {
		switch {
		case r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_':
			b.WriteRune(r)
		case r == '*':
			b.WriteString("ptr_")
		case r == '[':
			b.WriteString("sl_")
		case r == ']':
		default:
			b.WriteByte('_')
		}
	}
	return b.String()
}

// Registry holds what is shared by all verification conditions of a run: type
// identifiers, struct datatypes, string literals.
type Registry struct {
	mu      sync.Mutex
	tags    map[string]int
	structs map[string]*structDT
	order   []string
	spec    *Spec
	w       *World
}

type structDT struct {
	name   string
	fields []string
	sorts  []string
	typs   []types.Type
	decl   string
}

func newRegistry(w *World, spec *Spec) *Registry {
	return &Registry{tags: map[string]int{}, structs: map[string]*structDT{}, spec: spec, w: w}
}

// typeTag numbers dynamic types; pointer types get numbers from 1000 on.
func (r *Registry) typeTag(t types.Type) int {
	r.mu.Lock()
	defer r.mu.Unlock()
	n := tname(t)
	if v, ok := r.tags[n]; ok {
		return v
	}
	v := 1 + len(r.tags)
	if _, ok := under(t).(*types.Pointer); ok {
		v += 1000
	}
	r.tags[n] = v
	return v
}

func (r *Registry) sortOf(t types.Type) string {
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return "Bool"
		case u.Info()&types.IsInteger != 0:
			return "Int"
		case u.Info()&types.IsString != 0:
			return "Str"
		case u.Kind() == types.UntypedNil:
			return "Int"
		}
		if u.Kind() == types.UnsafePointer {
			return "Int" // the stack of deferred calls
		}
		unsup("basic type %s", t)
	case *types.Pointer, *types.Map, *types.Signature, *types.Chan:
		return "Int"
	case *types.Slice:
		return "Slice"
	case *types.Interface:
		return "Iface"
	case *types.Struct:
		return r.structSort(t).name
	case *types.Array:
		return "(Array Int " + r.sortOf(u.Elem()) + ")"
	}
	if strings.Contains(t.String(), "deferStack") {
		return "Int"
	}
	unsup("type %s", t)
	return ""
}

func (r *Registry) structSort(t types.Type) *structDT {
	n := tname(t)
	r.mu.Lock()
	if d := r.structs[n]; d != nil {
		r.mu.Unlock()
		return d
	}
	r.mu.Unlock()
	st := under(t).(*types.Struct)
	d := &structDT{name: "S_" + sani(n)}
	var fs []string
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if f.Name() == "_" || n == "strings.Builder" || n == "bytes.Buffer" || n == "sync.Mutex" {
			continue
		}
		s := r.sortOf(f.Type())
		d.fields = append(d.fields, f.Name())
		d.sorts = append(d.sorts, s)
		d.typs = append(d.typs, f.Type())
		fs = append(fs, fmt.Sprintf("(%s_%s %s)", d.name, f.Name(), s))
	}
	if len(fs) == 0 {
		d.decl = fmt.Sprintf("(declare-datatypes ((%s 0)) (((mk_%s (%s_dummy Int)))))", d.name, d.name, d.name)
	} else {
		d.decl = fmt.Sprintf("(declare-datatypes ((%s 0)) (((mk_%s %s))))", d.name, d.name, strings.Join(fs, " "))
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	if e := r.structs[n]; e != nil {
		return e
	}
	r.structs[n] = d
	r.order = append(r.order, n)
	return d
}

func (d *structDT) mk(vals []string) string {
	if len(vals) == 0 {
		return fmt.Sprintf("(mk_%s 0)", d.name)
	}
	return fmt.Sprintf("(mk_%s %s)", d.name, strings.Join(vals, " "))
}

func (r *Registry) zero(t types.Type) string {
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return "false"
		case u.Info()&types.IsString != 0:
			return "str_empty"
		}
		return "0"
	case *types.Slice:
		return "nilslice"
	case *types.Interface:
		return "niliface"
	case *types.Struct:
		d := r.structSort(t)
		var vs []string
		for _, ft := range d.typs {
			vs = append(vs, r.zero(ft))
		}
		return d.mk(vs)
	case *types.Array:
		return fmt.Sprintf("((as const %s) %s)", r.sortOf(t), r.zero(u.Elem()))
	}
	return "0"
}

func zeroOfSort(s string) string {
	switch s {
	case "Int":
		return "0"
	case "Bool":
		return "false"
	case "Str":
		return "str_empty"
	case "Slice":
		return "nilslice"
	case "Iface":
		return "niliface"
	}
	return ""
}

const prelude = `(set-option :auto_config false)
(set-option :smt.mbqi false)
(set-option :smt.case_split 3)
(declare-sort Str 0)
(declare-datatypes ((Slice 0)) (((mkS (sarr Int) (soff Int) (vlen Int) (vcap Int)))))
(declare-datatypes ((Iface 0)) (((mkI (itag Int) (ival Int)))))
(define-fun nilslice () Slice (mkS 0 0 0 0))
(define-fun niliface () Iface (mkI 0 0))
(declare-fun rtype (Int) Int)
(declare-fun fencl (Int) Int)
(declare-fun card_Str ((Array Str Bool)) Int)
(declare-fun card_Int ((Array Int Bool)) Int)
(declare-fun strlen (Str) Int)
(declare-fun strat (Str Int) Int)
(declare-fun strsub (Str Int Int) Str)
(declare-fun strcat (Str Str) Str)
(declare-fun u8 (Int Int) Int)
(declare-fun bat (Slice Int) Int)
(declare-fun subS (Slice Int Int) Slice)
(declare-fun bstr (Slice) Str)
(declare-fun runestr (Int) Str)
(declare-fun streqw (Str Str) Int)
(declare-const str_empty Str)
(declare-fun hint_Int (Int) Bool)
(declare-fun hint_Bool (Bool) Bool)
(declare-fun hint_Str (Str) Bool)
(declare-fun hint_Slice (Slice) Bool)
(declare-fun hint_Iface (Iface) Bool)
(define-fun bit ((x Int) (c Int)) Int (mod (div x c) 2))
(define-fun tdiv ((x Int) (y Int)) Int (ite (>= x 0) (div x y) (- (div (- x) y))))
(define-fun tmod ((x Int) (y Int)) Int (- x (* y (tdiv x y))))
(assert (forall ((s Str)) (! (>= (strlen s) 0) :pattern ((strlen s)))))
(assert (= (strlen str_empty) 0))
(assert (forall ((d (Array Str Bool))) (! (>= (card_Str d) 0) :pattern ((card_Str d)))))
(assert (forall ((d (Array Int Bool))) (! (>= (card_Int d) 0) :pattern ((card_Int d)))))
(assert (forall ((s Str)) (! (=> (= (strlen s) 0) (= s str_empty)) :pattern ((strlen s)))))
(assert (forall ((s Str) (i Int)) (! (and (<= 0 (strat s i)) (<= (strat s i) 255)) :pattern ((strat s i)))))
(assert (forall ((a Int) (i Int)) (! (and (<= 0 (u8 a i)) (<= (u8 a i) 255)) :pattern ((u8 a i)))))
(assert (forall ((s Slice) (i Int)) (! (= (bat s i) (u8 (sarr s) (+ (soff s) i))) :pattern ((bat s i)))))
(assert (forall ((s Slice) (l Int) (h Int)) (! (= (subS s l h) (mkS (sarr s) (+ (soff s) l) (- h l) (- (vcap s) l))) :pattern ((subS s l h)))))
(assert (forall ((s Slice) (l Int) (h Int) (i Int)) (! (= (bat (subS s l h) i) (bat s (+ l i))) :pattern ((bat (subS s l h) i)))))
(assert (forall ((s Slice)) (! (=> (>= (vlen s) 0) (= (strlen (bstr s)) (vlen s))) :pattern ((bstr s)))))
(assert (forall ((s Slice)) (! (=> (and (= (vlen s) 1) (< (u8 (sarr s) (soff s)) 128)) (= (bstr s) (runestr (u8 (sarr s) (soff s))))) :pattern ((bstr s)))))
(assert (forall ((s Slice) (i Int)) (! (=> (and (<= 0 i) (< i (vlen s))) (= (strat (bstr s) i) (bat s i))) :pattern ((strat (bstr s) i)))))
(assert (forall ((s Str) (i Int) (j Int)) (! (=> (and (<= 0 i) (<= i j) (<= j (strlen s))) (= (strlen (strsub s i j)) (- j i))) :pattern ((strsub s i j)))))
(assert (forall ((s Str) (i Int) (j Int) (k Int)) (! (=> (and (<= 0 i) (<= i j) (<= j (strlen s)) (<= 0 k) (< k (- j i))) (= (strat (strsub s i j) k) (strat s (+ i k)))) :pattern ((strat (strsub s i j) k)))))
(assert (forall ((s Str) (j Int)) (! (=> (= j (strlen s)) (= (strsub s 0 j) s)) :pattern ((strsub s 0 j)))))
(assert (forall ((s Slice) (i Int) (j Int)) (! (=> (and (<= 0 i) (<= i j) (<= j (vlen s))) (= (strsub (bstr s) i j) (bstr (subS s i j)))) :pattern ((strsub (bstr s) i j)))))
(assert (forall ((s Slice) (l Int) (h Int) (i Int) (j Int)) (! (= (subS (subS s l h) i j) (subS s (+ l i) (+ l j))) :pattern ((subS (subS s l h) i j)))))
(assert (forall ((a Str) (b Str)) (! (= (strlen (strcat a b)) (+ (strlen a) (strlen b))) :pattern ((strcat a b)))))
(assert (forall ((a Str) (b Str) (k Int)) (! (=> (and (<= 0 k) (< k (+ (strlen a) (strlen b)))) (= (strat (strcat a b) k) (ite (< k (strlen a)) (strat a k) (strat b (- k (strlen a)))))) :pattern ((strat (strcat a b) k)))))
(assert (forall ((a Str)) (! (and (= (strcat a str_empty) a) (= (strcat str_empty a) a)) :pattern ((strcat a str_empty)) :pattern ((strcat str_empty a)))))
(assert (forall ((a Str) (b Str) (c Str)) (! (= (strcat (strcat a b) c) (strcat a (strcat b c))) :pattern ((strcat (strcat a b) c)))))
(assert (forall ((r Int)) (! (and (>= (strlen (runestr r)) 1) (<= (strlen (runestr r)) 4) (=> (and (<= 0 r) (< r 128)) (and (= (strlen (runestr r)) 1) (= (strat (runestr r) 0) r))) (=> (or (< r 0) (>= r 128)) (and (>= (strlen (runestr r)) 2) (>= (strat (runestr r) 0) 128)))) :pattern ((runestr r)))))
(assert (forall ((a Str) (b Str)) (! (and (=> (= a b) (= (streqw a b) 0)) (=> (not (= a b)) (or (not (= (strlen a) (strlen b))) (and (<= 0 (streqw a b)) (< (streqw a b) (strlen a)) (not (= (strat a (streqw a b)) (strat b (streqw a b)))))))) :pattern ((streqw a b)))))
`

// sortID makes a sort text usable in an SMT symbol.
func sortID(s string) string { return sani(strings.NewReplacer("(", "L", ")", "J").Replace(s)) }

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
