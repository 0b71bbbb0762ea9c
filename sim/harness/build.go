package main

import (
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/akito0107/xsqlparser/sqlast"
	"github.com/akito0107/xsqlparser/sqltoken"
)

// buildTree makes a tree of random shape directly from the node types, also of
// types that the parser never produces. It may be one that cannot be rendered.
func buildTree(seed uint64) sqlast.Node {
	b := &builder{r: NewRand(seed), impl: map[reflect.Type][]reflect.Type{}}
	for try := 0; try < 20; try++ {
		t := nodeTypes[b.r.Intn(len(nodeTypes))]
		b.size = 0
		if n, ok := b.ptr(t, 0).Interface().(sqlast.Node); ok {
			return n
		}
	}
	return nil
}

type builder struct {
	r    *Rand
	size int
	impl map[reflect.Type][]reflect.Type
}

func (b *builder) ptr(t reflect.Type, d int) reflect.Value {
	b.size++
	v := reflect.New(t.Elem())
	b.fill(v.Elem(), d+1)
	return v
}

var simpleNodes = []interface{}{(*sqlast.Ident)(nil), (*sqlast.LongValue)(nil), (*sqlast.SingleQuotedString)(nil), (*sqlast.CompoundIdent)(nil), (*sqlast.NullValue)(nil)}

func (b *builder) iface(t reflect.Type, d int) (reflect.Value, bool) {
	if t == nodeType && (d > 5 || b.size > 200 || b.r.P(50)) {
		s := simpleNodes[b.r.Intn(len(simpleNodes))]
		return b.ptr(reflect.TypeOf(s), d), true
	}
	l, ok := b.impl[t]
	if !ok {
		for _, n := range nodeTypes {
			if n.Implements(t) {
				l = append(l, n)
			}
		}
		b.impl[t] = l
	}
	if len(l) == 0 {
		return reflect.Value{}, false
	}
	if d > 7 || b.size > 300 {
		// the types with the fewest fields end the tree
		best := l[0]
		for _, x := range l {
			if x.Elem().NumField() < best.Elem().NumField() {
				best = x
			}
		}
		return b.ptr(best, d), true
	}
	return b.ptr(l[b.r.Intn(len(l))], d), true
}

func (b *builder) fill(v reflect.Value, d int) {
	r := b.r
	switch v.Kind() {
	case reflect.Struct:
		if v.Type() == posType {
			v.Set(reflect.ValueOf(sqltoken.NewPos(r.Range(1, 5), r.Range(1, 80))))
			return
		}
		if v.Type() == timeType {
			zone := time.UTC
			if r.P(50) {
				zone = time.FixedZone("Z", r.Range(-12, 14)*3600)
			}
			if !r.P(15) {
				v.Set(reflect.ValueOf(time.Date(r.Pick2(1, 1969, 1999, 2024, 9999), time.Month(r.Range(1, 12)), r.Range(1, 31), r.Intn(24), r.Intn(60), r.Intn(60), r.Intn(1e9), zone)))
			}
			return
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				b.fill(v.Field(i), d)
			}
		}
	case reflect.Ptr:
		if v.Type().Elem().Kind() != reflect.Struct {
			if r.P(60) {
				n := reflect.New(v.Type().Elem())
				b.fill(n.Elem(), d+1)
				v.Set(n)
			}
			return
		}
		if d > 14 || r.P(12) {
			return
		}
		v.Set(b.ptr(v.Type(), d))
	case reflect.Interface:
		if d > 14 || r.P(8) {
			return
		}
		if n, ok := b.iface(v.Type(), d); ok {
			v.Set(n)
		}
	case reflect.Slice:
		n := r.Range(0, 3)
		if d > 6 {
			n = r.Range(0, 1)
		}
		if n == 0 && r.P(60) {
			n = 1
		}
		s := reflect.MakeSlice(v.Type(), n, n+r.Intn(2))
		for i := 0; i < n; i++ {
			e := s.Index(i)
			switch e.Kind() {
			case reflect.Ptr:
				if e.Type().Elem().Kind() == reflect.Struct && d < 16 {
					e.Set(b.ptr(e.Type(), d))
				}
			case reflect.Interface:
				if x, ok := b.iface(e.Type(), d); ok {
					e.Set(x)
				}
			default:
				b.fill(e, d+1)
			}
		}
		v.Set(s)
	case reflect.String:
		if r.P(12) {
			v.SetString(r.Pick("caf\xe9", "\xff\xfe", "\xe6\x97", "a\x00b", "'", "''", "\"", "`", "]", "\\", "\n", "a\nb\r\n", "", "%s%d%", "\ufeffx", "\ufffd", "--", "/*", "*/", strings.Repeat("long ü ", r.Pick2(20, 100, 700))))
			return
		}
		v.SetString(r.Pick("x", "id", "col_a", "ü", "a b", "t", "日本", "it''s", "v"+strconv.Itoa(r.Intn(99))))
	case reflect.Bool:
		v.SetBool(r.P(50))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(int64(r.Intn(8)))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(uint64(r.Intn(300)))
	case reflect.Float32, reflect.Float64:
		v.SetFloat(float64(r.Intn(1000)) / 8)
	}
}
