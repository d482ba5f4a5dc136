// Package snap compares and fingerprints values of the code under test.
package snap

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"
	"time"

	"seehuhn.de/go/sfnt/cff"
	"seehuhn.de/go/sfnt/glyph"
)

type hasher struct {
	h        uint64
	depth    int
	exported bool
}

func (s *hasher) u(v uint64) {
	s.h ^= v
	s.h *= 0x9e3779b97f4a7c15
	s.h ^= s.h >> 29
}

func (s *hasher) str(x string) {
	s.u(uint64(len(x)) + 77)
	var acc uint64
	for i := 0; i < len(x); i++ {
		acc = acc<<8 | uint64(x[i])
		if i%8 == 7 {
			s.u(acc)
			acc = 0
		}
	}
	s.u(acc)
}

// Hash returns a fingerprint of the value.  nil and empty slices and maps are
// the same, functions are ignored except FDSelect, which is tabulated.
func Hash(vals ...any) uint64 { return hash(false, vals) }

// HashExported is Hash, restricted to exported fields.
func HashExported(vals ...any) uint64 { return hash(true, vals) }

func hash(exported bool, vals []any) uint64 {
	s := &hasher{h: 0x1234567, exported: exported}
	for _, v := range vals {
		s.walk(reflect.ValueOf(v))
	}
	return s.h
}

var timeType = reflect.TypeOf(time.Time{})
var outlinesType = reflect.TypeOf(cff.Outlines{})
var bytesType = reflect.TypeOf([]byte(nil))

func fdTable(v reflect.Value) []int {
	fn, _ := v.FieldByName("FDSelect").Interface().(cff.FDSelectFn)
	n := v.FieldByName("Glyphs").Len()
	if fn == nil {
		return nil
	}
	res := make([]int, n)
	for i := range res {
		res[i] = fn(glyph.ID(i))
	}
	return res
}

func (s *hasher) walk(v reflect.Value) {
	s.depth++
	defer func() { s.depth-- }()
	if s.depth > 100 {
		panic("snap: too deep")
	}
	switch v.Kind() {
	case reflect.Invalid:
		s.u(1)
	case reflect.Bool:
		if v.Bool() {
			s.u(2)
		} else {
			s.u(3)
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		s.u(uint64(v.Int()) + 10)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		s.u(v.Uint() + 11)
	case reflect.Float32, reflect.Float64:
		f := v.Float()
		if f == 0 {
			f = 0 // no negative zero
		}
		s.u(math.Float64bits(f) + 12)
	case reflect.String:
		s.str(v.String())
	case reflect.Interface, reflect.Pointer:
		if v.IsNil() {
			s.u(4)
			return
		}
		if v.Kind() == reflect.Interface {
			s.str(v.Elem().Type().String())
		} else {
			s.u(5)
		}
		s.walk(v.Elem())
	case reflect.Slice:
		if v.Type() == bytesType {
			s.str(string(v.Bytes()))
			return
		}
		fallthrough
	case reflect.Array:
		n := v.Len()
		s.u(uint64(n) + 13)
		for i := 0; i < n; i++ {
			s.walk(v.Index(i))
		}
	case reflect.Map:
		s.u(uint64(v.Len()) + 14)
		var sum uint64
		it := v.MapRange()
		for it.Next() {
			e := &hasher{h: 99, depth: s.depth, exported: s.exported}
			e.walk(it.Key())
			e.walk(it.Value())
			sum += e.h
		}
		s.u(sum)
	case reflect.Struct:
		if v.Type() == timeType && v.CanInterface() {
			t := v.Interface().(time.Time)
			s.u(uint64(t.UnixNano()))
			return
		}
		if v.Type() == outlinesType {
			for _, k := range fdTable(v) {
				s.u(uint64(k) + 15)
			}
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).Kind() == reflect.Func {
				continue
			}
			if (s.exported || own(v.Type())) && !v.Type().Field(i).IsExported() {
				continue
			}
			s.walk(v.Field(i))
		}
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		s.u(16)
	default:
		panic("snap: kind " + v.Kind().String())
	}
}

// Diff returns a description of the first difference, or "".
func Diff(a, b any) string {
	d := &differ{}
	d.cmp("", reflect.ValueOf(a), reflect.ValueOf(b))
	return d.msg
}

// DiffTol is like Diff, but floating point numbers may differ by tol.
func DiffTol(a, b any, tol float64) string {
	d := &differ{tol: tol}
	d.cmp("", reflect.ValueOf(a), reflect.ValueOf(b))
	return d.msg
}

type differ struct {
	msg string
	tol float64
}

func (d *differ) fail(path, format string, args ...any) {
	if d.msg == "" {
		d.msg = path + ": " + fmt.Sprintf(format, args...)
	}
}

func (d *differ) cmp(path string, a, b reflect.Value) {
	if d.msg != "" {
		return
	}
	if a.IsValid() != b.IsValid() {
		d.fail(path, "nil vs. non-nil")
		return
	}
	if !a.IsValid() {
		return
	}
	if a.Type() != b.Type() {
		d.fail(path, "%v vs. %v", a.Type(), b.Type())
		return
	}
	switch a.Kind() {
	case reflect.Bool:
		if a.Bool() != b.Bool() {
			d.fail(path, "%v vs. %v", a.Bool(), b.Bool())
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if a.Int() != b.Int() {
			d.fail(path, "%v vs. %v", a.Int(), b.Int())
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		if a.Uint() != b.Uint() {
			d.fail(path, "%v vs. %v", a.Uint(), b.Uint())
		}
	case reflect.Float32, reflect.Float64:
		x, y := a.Float(), b.Float()
		if x != y && !(math.Abs(x-y) <= d.tol) && !(x != x && y != y) {
			d.fail(path, "%v vs. %v", x, y)
		}
	case reflect.String:
		if a.String() != b.String() {
			d.fail(path, "%.80q vs. %.80q", a.String(), b.String())
		}
	case reflect.Interface, reflect.Pointer:
		if a.IsNil() != b.IsNil() {
			d.fail(path, "nil: %v vs. %v", a.IsNil(), b.IsNil())
			return
		}
		if !a.IsNil() {
			d.cmp(path, a.Elem(), b.Elem())
		}
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			d.fail(path, "length %d vs. %d", a.Len(), b.Len())
			return
		}
		for i := 0; i < a.Len() && d.msg == ""; i++ {
			p := path
			if a.Index(i).Kind() != reflect.Uint8 || a.Index(i).Uint() != b.Index(i).Uint() {
				p = fmt.Sprintf("%s[%d]", path, i)
			}
			d.cmp(p, a.Index(i), b.Index(i))
		}
	case reflect.Map:
		if a.Len() != b.Len() {
			d.fail(path, "%d vs. %d entries", a.Len(), b.Len())
			return
		}
		keys := a.MapKeys()
		sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
		for _, k := range keys {
			bv := b.MapIndex(k)
			p := fmt.Sprintf("%s[%v]", path, k)
			if !bv.IsValid() {
				d.fail(p, "missing in second value")
				return
			}
			d.cmp(p, a.MapIndex(k), bv)
		}
	case reflect.Struct:
		if a.Type() == timeType && a.CanInterface() {
			x, y := a.Interface().(time.Time), b.Interface().(time.Time)
			if !x.Equal(y) {
				d.fail(path, "%v vs. %v", x, y)
			}
			return
		}
		if a.Type() == outlinesType {
			d.cmp(path+".FDSelect", reflect.ValueOf(fdTable(a)), reflect.ValueOf(fdTable(b)))
		}
		for i := 0; i < a.NumField(); i++ {
			if a.Field(i).Kind() == reflect.Func || own(a.Type()) && !a.Type().Field(i).IsExported() {
				continue
			}
			d.cmp(path+"."+a.Type().Field(i).Name, a.Field(i), b.Field(i))
		}
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
	default:
		panic("snap: kind " + a.Kind().String())
	}
}

// own returns true for the types of the library.  The data of a font is in
// exported fields there.  Unexported fields can only be caches, which are not
// part of the value.
func own(t reflect.Type) bool {
	return strings.HasPrefix(t.PkgPath(), "seehuhn.de/go/sfnt")
}
