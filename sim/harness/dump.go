package main

import (
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/akito0107/xsqlparser/sqlast"
	"github.com/akito0107/xsqlparser/sqltoken"
)

// Canonical dumps: two values are the same iff their dumps are.

var (
	posType  = reflect.TypeOf(sqltoken.Pos{})
	timeType = reflect.TypeOf(time.Time{})
	nodeType = reflect.TypeOf((*sqlast.Node)(nil)).Elem()
)

type dumper struct {
	b     []byte
	depth int
	nopos bool
}

func dump(v interface{}) string {
	d := &dumper{}
	d.value(reflect.ValueOf(v))
	return string(d.b)
}

func (d *dumper) str(s string) { d.b = append(d.b, s...) }

type structInfo struct {
	name   string
	fields []int
	names  []string
}

// one table per type; the harness fills it before tasks run concurrently, and
// every goroutine of a race build uses the slow path instead.
var structInfos = map[reflect.Type]*structInfo{}

func infoOf(t reflect.Type) *structInfo {
	if !raceBuild {
		if s, ok := structInfos[t]; ok {
			return s
		}
	}
	s := &structInfo{name: t.Name()}
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		if f.PkgPath != "" {
			continue
		}
		s.fields = append(s.fields, i)
		s.names = append(s.names, f.Name)
	}
	if !raceBuild {
		structInfos[t] = s
	}
	return s
}

func (d *dumper) value(v reflect.Value) {
	if d.depth > 2000 {
		d.str("<too deep>")
		return
	}
	if len(d.b) > 4<<20 {
		return
	}
	d.depth++
	defer func() { d.depth-- }()
	switch v.Kind() {
	case reflect.Invalid:
		d.str("nil")
	case reflect.Ptr:
		if v.IsNil() {
			d.str("nil")
			return
		}
		d.b = append(d.b, '&')
		d.value(v.Elem())
	case reflect.Interface:
		if v.IsNil() {
			d.str("nil")
			return
		}
		d.value(v.Elem())
	case reflect.Struct:
		if v.Type() == posType {
			if d.nopos {
				return
			}
			p := v.Interface().(sqltoken.Pos)
			d.b = append(d.b, '@')
			d.b = strconv.AppendInt(d.b, int64(p.Line), 10)
			d.b = append(d.b, ':')
			d.b = strconv.AppendInt(d.b, int64(p.Col), 10)
			return
		}
		if v.Type() == timeType && v.CanInterface() {
			d.str(v.Interface().(time.Time).Format(time.RFC3339Nano))
			return
		}
		in := infoOf(v.Type())
		d.str(in.name)
		d.b = append(d.b, '{')
		for i, f := range in.fields {
			fv := v.Field(f)
			if isZero(fv) {
				continue
			}
			d.str(in.names[i])
			d.b = append(d.b, ':')
			d.value(fv)
			d.b = append(d.b, ' ')
		}
		d.b = append(d.b, '}')
	case reflect.Slice, reflect.Array:
		d.b = append(d.b, '[')
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				d.b = append(d.b, ' ')
			}
			d.value(v.Index(i))
		}
		d.b = append(d.b, ']')
	case reflect.Map:
		var l []string
		for _, k := range v.MapKeys() {
			l = append(l, dump2(k)+"=>"+dump2(v.MapIndex(k)))
		}
		sort.Strings(l)
		d.str("map[" + strings.Join(l, " ") + "]")
	case reflect.String:
		d.b = strconv.AppendQuote(d.b, v.String())
	case reflect.Bool:
		d.b = strconv.AppendBool(d.b, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		d.b = strconv.AppendInt(d.b, v.Int(), 10)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		d.b = strconv.AppendUint(d.b, v.Uint(), 10)
	case reflect.Float32, reflect.Float64:
		d.b = strconv.AppendFloat(d.b, v.Float(), 'g', -1, 64)
	default:
		d.str("<" + v.Kind().String() + ">")
	}
}

// isZero skips zero fields; nil and empty lists are the same.
func isZero(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Slice, reflect.Map:
		return v.Len() == 0
	case reflect.Ptr, reflect.Interface:
		return v.IsNil()
	case reflect.String:
		return v.Len() == 0
	case reflect.Bool:
		return !v.Bool()
	case reflect.Int, reflect.Int64:
		return v.Int() == 0
	}
	return false
}

func dump2(v reflect.Value) string {
	d := &dumper{}
	d.value(v)
	return string(d.b)
}

// isNilNode tells whether a node is nil, also as a nil pointer in an interface.
func isNilNode(n interface{}) bool {
	if n == nil {
		return true
	}
	v := reflect.ValueOf(n)
	switch v.Kind() {
	case reflect.Ptr, reflect.Slice, reflect.Map, reflect.Interface:
		return v.IsNil()
	}
	return false
}

// normErr removes memory addresses from an error text.
func normErr(s string) string {
	if !strings.Contains(s, "0x") {
		return s
	}
	var b strings.Builder
	for {
		i := strings.Index(s, "0x")
		if i < 0 {
			b.WriteString(s)
			return b.String()
		}
		j := i + 2
		for j < len(s) && (s[j] >= '0' && s[j] <= '9' || s[j] >= 'a' && s[j] <= 'f') {
			j++
		}
		if j-i >= 8 {
			b.WriteString(s[:i])
			b.WriteString("0xPTR")
		} else {
			b.WriteString(s[:j])
		}
		s = s[j:]
	}
}

func dumpToken(t *sqltoken.Token) string {
	if t == nil {
		return "nil"
	}
	d := &dumper{}
	d.str(t.Kind.String())
	d.b = append(d.b, ' ')
	d.value(reflect.ValueOf(t.Value))
	d.value(reflect.ValueOf(t.From))
	d.value(reflect.ValueOf(t.To))
	return string(d.b)
}

// allNodes lists every node of a tree, parents first, by looking at the fields
// only (not by the library's own traversals).
func allNodes(root interface{}) []sqlast.Node {
	var l []sqlast.Node
	seen := map[uintptr]bool{}
	var rec func(v reflect.Value, d int)
	rec = func(v reflect.Value, d int) {
		if d > 2000 || len(l) > 100000 {
			return
		}
		switch v.Kind() {
		case reflect.Interface:
			if !v.IsNil() {
				rec(v.Elem(), d+1)
			}
		case reflect.Ptr:
			if v.IsNil() {
				return
			}
			e := v.Elem()
			if e.Kind() != reflect.Struct {
				return
			}
			if e.Type().Size() > 0 {
				if seen[v.Pointer()] {
					return
				}
				seen[v.Pointer()] = true
			}
			if v.CanInterface() {
				if n, ok := v.Interface().(sqlast.Node); ok {
					l = append(l, n)
				}
			}
			rec(e, d+1)
		case reflect.Struct:
			if v.Type() == posType {
				return
			}
			in := infoOf(v.Type())
			for _, f := range in.fields {
				rec(v.Field(f), d+1)
			}
		case reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				rec(v.Index(i), d+1)
			}
		}
	}
	rec(reflect.ValueOf(root), 0)
	return l
}

// cloneTree makes a deep copy.
func cloneTree(v interface{}) interface{} {
	if v == nil {
		return nil
	}
	return cloneValue(reflect.ValueOf(v), 0).Interface()
}

func cloneValue(v reflect.Value, d int) reflect.Value {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return v
		}
		n := reflect.New(v.Type().Elem())
		n.Elem().Set(v.Elem())
		cloneInto(n.Elem(), d+1)
		return n
	case reflect.Interface:
		if v.IsNil() {
			return v
		}
		n := reflect.New(v.Type()).Elem()
		n.Set(cloneValue(v.Elem(), d+1))
		return n
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		n := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			n.Index(i).Set(cloneValue(v.Index(i), d+1))
		}
		return n
	}
	return v
}

func cloneInto(s reflect.Value, d int) {
	if s.Kind() != reflect.Struct {
		return
	}
	for _, f := range infoOf(s.Type()).fields {
		fv := s.Field(f)
		switch fv.Kind() {
		case reflect.Ptr, reflect.Interface, reflect.Slice:
			fv.Set(cloneValue(fv, d+1))
		case reflect.Struct:
			cloneInto(fv, d+1)
		}
	}
}

// diffAt shows where two texts differ.
func diffAt(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo := i - 40
	if lo < 0 {
		lo = 0
	}
	cut := func(s string) string {
		hi := i + 80
		if hi > len(s) {
			hi = len(s)
		}
		if lo > len(s) {
			return ""
		}
		return s[lo:hi]
	}
	return fmt.Sprintf("at %d: expected ...%q... got ...%q...", i, cut(a), cut(b))
}

func short(s string, n int) string {
	if len(s) <= n {
		return s
	}
	return s[:n] + "..."
}
