// Driver for the set collections, for every element type by reflection.
package main

import (
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"sort"

	"sigs.k8s.io/instrumentation-tools/notstdlib/sets"
	"sigs.k8s.io/instrumentation-tools/zzverif/hlib"
)

// the element types, each with values in ascending order
var types = []struct {
	name        string
	set         interface{} // nil set of the type
	new, keySet interface{}
	vals        interface{}
}{
	{"byte", sets.Byte(nil), sets.NewByte, sets.ByteKeySet, []byte{0, 1, 2, 31, 64, 126, 127, 128, 129, 200, 254, 255}},
	{"int", sets.Int(nil), sets.NewInt, sets.IntKeySet, []int{math.MinInt64, math.MinInt64 + 1, -1 << 32, -7, -1, 0, 1, 7, 1 << 31, 1 << 33, math.MaxInt64 - 1, math.MaxInt64}},
	{"int32", sets.Int32(nil), sets.NewInt32, sets.Int32KeySet, []int32{math.MinInt32, math.MinInt32 + 1, -65536, -7, -1, 0, 1, 7, 256, 1 << 20, math.MaxInt32 - 1, math.MaxInt32}},
	{"int64", sets.Int64(nil), sets.NewInt64, sets.Int64KeySet, []int64{math.MinInt64, math.MinInt64 + 1, -1 << 32, -7, -1, 0, 1, 7, 1 << 31, 1 << 33, math.MaxInt64 - 1, math.MaxInt64}},
	{"string", sets.String(nil), sets.NewString, sets.StringKeySet, []string{"", "\x00", "A", "Z", "a", "a\x00", "aa", "ab", "b", "z", "é", "\xff"}},
	{"uint64", sets.Uint64(nil), sets.NewUint64, sets.Uint64KeySet, []uint64{0, 1, 2, 255, 256, 1 << 31, 1 << 32, 1<<63 - 1, 1 << 63, 1<<63 + 1, math.MaxUint64 - 1, math.MaxUint64}},
}

type op struct {
	Op   string
	R    int
	A, B int
	Xs   []int
}

type machine struct {
	set, vals, new, keySet reflect.Value
	regs                   []reflect.Value
	// so many values, one after another in the table, stand for an element
	block int
	index map[interface{}]int
}

// blocks is a table of n values for each of 12 elements.
func blocks(typ string, n int) interface{} {
	switch typ {
	case "byte":
		vs := []byte{}
		for i := 0; i < 12*n && (12*n <= 256 || i < 4*n && i < 256); i++ {
			if 12*n <= 256 {
				vs = append(vs, byte(i+256-12*n))
			} else {
				vs = append(vs, byte(i))
			}
		}
		return vs
	case "string":
		vs := []string{}
		for i := 0; i < 12*n; i++ {
			vs = append(vs, fmt.Sprintf("%c%05d", 'm'+i/n, i%n))
		}
		return vs
	}
	t := map[string]reflect.Type{"int": reflect.TypeOf(0), "int32": reflect.TypeOf(int32(0)), "int64": reflect.TypeOf(int64(0)), "uint64": reflect.TypeOf(uint64(0))}[typ]
	step := map[string]float64{"int": 1 << 60, "int32": 1 << 28, "int64": 1 << 60, "uint64": 1 << 60}[typ]
	vs := reflect.MakeSlice(reflect.SliceOf(t), 0, 12*n)
	for i := 0; i < 12; i++ {
		for j := 0; j < n; j++ {
			if typ == "uint64" {
				vs = reflect.Append(vs, reflect.ValueOf(uint64(step)*uint64(i)+uint64(j)))
			} else {
				vs = reflect.Append(vs, reflect.ValueOf(int64(step)*int64(i-8)+int64(j)).Convert(t))
			}
		}
	}
	return vs.Interface()
}

func (m *machine) rank(v reflect.Value) int {
	if i, ok := m.index[v.Interface()]; ok {
		return i + 1
	}
	hlib.Fail("unknown element %v", v.Interface())
	return 0
}

func (m *machine) ranks(slice reflect.Value) []int {
	res := []int{}
	for i := 0; i < slice.Len(); i++ {
		res = append(res, m.rank(slice.Index(i)))
	}
	return res
}

// whole gives the elements whose values, all of them, are listed.
func (m *machine) whole(vs []int) interface{} {
	if m.block == 1 {
		return vs
	}
	res := []int{}
	for i, v := range vs {
		if v != m.block*((v-1)/m.block)+i%m.block+1 || i > 0 && vs[i-1] >= v {
			return fmt.Sprintf("value %d of %v", i, vs)
		}
		if i%m.block == 0 {
			res = append(res, (v-1)/m.block+1)
		}
	}
	if len(vs)%m.block != 0 {
		return fmt.Sprintf("%d values", len(vs))
	}
	return res
}

func (m *machine) items(xs []int) reflect.Value {
	s := reflect.MakeSlice(m.vals.Type(), 0, len(xs)+1)
	for _, x := range xs {
		for j := 0; j < m.block; j++ {
			s = reflect.Append(s, m.vals.Index((x-1)*m.block+j))
		}
	}
	return s
}

// scribble overwrites a slice that is not the set's any more.
func (m *machine) scribble(s reflect.Value) {
	s = s.Slice(0, s.Cap())
	for i := 0; i < s.Len(); i++ {
		s.Index(i).Set(m.vals.Index(3))
	}
}

func (m *machine) content(s reflect.Value) []int {
	res := []int{}
	for _, k := range s.MapKeys() {
		res = append(res, m.rank(k))
	}
	sort.Ints(res)
	return res
}

func (m *machine) call(r int, method string, args ...reflect.Value) []reflect.Value {
	return m.regs[r-1].MethodByName(method).Call(args)
}
func (m *machine) callSlice(r int, method string, items reflect.Value) []reflect.Value {
	return m.regs[r-1].MethodByName(method).CallSlice([]reflect.Value{items})
}

func (m *machine) step(o op) interface{} {
	items := m.items(o.Xs)
	defer m.scribble(items)
	switch o.Op {
	case "nil":
		m.regs[o.R-1] = m.set
	case "new":
		m.regs[o.R-1] = m.new.CallSlice([]reflect.Value{items})[0]
	case "keyset":
		mp := reflect.MakeMap(reflect.MapOf(m.vals.Type().Elem(), reflect.TypeOf(false)))
		for i := 0; i < items.Len(); i++ {
			mp.SetMapIndex(items.Index(i), reflect.ValueOf(i%2 == 0))
		}
		before := mp.Len()
		m.regs[o.R-1] = m.keySet.Call([]reflect.Value{mp})[0]
		if mp.Len() != before {
			return "the map was changed"
		}
	case "insert", "delete":
		res := m.callSlice(o.R, map[string]string{"insert": "Insert", "delete": "Delete"}[o.Op], items)[0]
		if res.Pointer() != m.regs[o.R-1].Pointer() {
			return "not the set itself returned"
		}
	case "union", "intersection", "difference":
		name := map[string]string{"union": "Union", "intersection": "Intersection", "difference": "Difference"}[o.Op]
		m.regs[o.R-1] = m.call(o.A, name, m.regs[o.B-1])[0]
	case "superset":
		return m.call(o.A, "IsSuperset", m.regs[o.B-1])[0].Bool()
	case "equal":
		return m.call(o.A, "Equal", m.regs[o.B-1])[0].Bool()
	case "has":
		return m.call(o.A, "Has", items.Index(0))[0].Bool()
	case "hasall":
		return m.callSlice(o.A, "HasAll", items)[0].Bool()
	case "hasany":
		return m.callSlice(o.A, "HasAny", items)[0].Bool()
	case "len":
		if n := m.call(o.A, "Len")[0].Int(); n%int64(m.block) == 0 {
			return n / int64(m.block)
		} else {
			return fmt.Sprintf("%d elements", n)
		}
	case "list", "unsorted":
		name := map[string]string{"list": "List", "unsorted": "UnsortedList"}[o.Op]
		l := m.call(o.A, name)[0]
		got := m.ranks(l)
		m.scribble(l)
		if o.Op == "unsorted" {
			sort.Ints(got)
		}
		return m.whole(got)
	case "pop":
		all, taken := []int{}, 0
		size := m.regs[o.R-1].Len()
		popped := reflect.MakeSlice(m.vals.Type(), 0, 0)
		for i := 0; i < o.A*m.block; i++ {
			res := m.call(o.R, "PopAny")
			if !res[1].Bool() {
				if !res[0].IsZero() {
					return fmt.Sprintf("nothing taken, but %v returned", res[0].Interface())
				}
				continue
			}
			taken++
			popped = reflect.Append(popped, res[0])
			all = append(all, m.rank(res[0]))
			if m.regs[o.R-1].Len() != size-taken {
				return "not exactly one element removed"
			}
		}
		all = append(all, m.content(m.regs[o.R-1])...)
		sort.Ints(all)
		for i := 0; i < popped.Len(); i++ {
			m.regs[o.R-1].SetMapIndex(popped.Index(i), reflect.ValueOf(sets.Empty{}))
		}
		return hlib.J{"all": m.whole(all), "taken": taken / m.block}
	default:
		hlib.Fail("unknown operation %s", o.Op)
	}
	return 0
}

func run(raw json.RawMessage) interface{} {
	var t struct {
		Typ   int
		Ops   []op
		Block int
	}
	hlib.Must(raw, &t)
	ty := types[t.Typ-1]
	m := &machine{set: reflect.ValueOf(ty.set), vals: reflect.ValueOf(ty.vals), new: reflect.ValueOf(ty.new), keySet: reflect.ValueOf(ty.keySet)}
	m.block = 1
	if t.Block > 1 {
		m.block = t.Block
		m.vals = reflect.ValueOf(blocks(ty.name, t.Block))
	}
	m.index = map[interface{}]int{}
	for i := 0; i < m.vals.Len(); i++ {
		m.index[m.vals.Index(i).Interface()] = i
	}
	for i := 0; i < 3; i++ {
		m.regs = append(m.regs, m.new.Call(nil)[0])
	}
	res := []interface{}{}
	for _, o := range t.Ops {
		ans := m.step(o)
		regs := []interface{}{}
		for _, s := range m.regs {
			regs = append(regs, m.whole(m.content(s)))
		}
		res = append(res, hlib.J{"ans": ans, "regs": regs})
	}
	return res
}

func main() {
	hlib.Mode("run", run)
	hlib.Main()
}
