package verifsimrt

import "reflect"

// peek recognises a finished tree among the values sent over channels (a
// struct with the tree's root and the counters of the work that made it) and
// notes its measures. What cannot be recognised is not noted.

func peek(v interface{}) {
	u, ok := v.(unboxer)
	if !ok {
		return
	}
	p, ok := peekTree(reflect.ValueOf(u.any()))
	if ok {
		res.Peeked = append(res.Peeked, p)
	}
}

func deref(v reflect.Value) reflect.Value {
	for v.Kind() == reflect.Ptr && !v.IsNil() {
		v = v.Elem()
	}
	return v
}

func intField(v reflect.Value, name string, to *int) bool {
	f := v.FieldByName(name)
	if !f.IsValid() {
		return false
	}
	switch f.Kind() {
	case reflect.Int, reflect.Int32, reflect.Int64, reflect.Int16:
		*to = int(f.Int())
	case reflect.Uint, reflect.Uint32, reflect.Uint64, reflect.Uint16:
		*to = int(f.Uint())
	default:
		return false
	}
	return true
}

func peekTree(v reflect.Value) (p Peeked, ok bool) {
	v = deref(v)
	if v.Kind() != reflect.Struct || !intField(v, "id", &p.ID) {
		return
	}
	var root, tot reflect.Value
	for i := 0; i < v.NumField(); i++ {
		f := deref(v.Field(i))
		if f.Kind() != reflect.Struct {
			continue
		}
		if f.FieldByName("nextL").IsValid() && f.FieldByName("nextR").IsValid() {
			root = f
		}
		if t := f.FieldByName("totals"); t.IsValid() {
			tot = deref(t)
			if vs := f.FieldByName("vertices"); vs.IsValid() && vs.Kind() == reflect.Slice {
				p.Verts = vs.Len()
			}
		}
	}
	if !root.IsValid() || !tot.IsValid() || tot.Kind() != reflect.Struct {
		return
	}
	if !intField(tot, "numSSectors", &p.SSectors) || !intField(tot, "numSegs", &p.Segs) || !intField(tot, "preciousSplit", &p.Precious) {
		return
	}
	p.HL, p.HR = depthOf(root.FieldByName("nextL")), depthOf(root.FieldByName("nextR"))
	return p, true
}

// depthOf counts the levels of a subtree; leaves count too, except that a
// child of the root that is a leaf counts as nothing.
func depthOf(v reflect.Value) int {
	if v.Kind() != reflect.Ptr || v.IsNil() {
		return 0
	}
	return nodeDepth(v) + 1
}

func nodeDepth(v reflect.Value) int {
	n := v.Elem()
	max := 1
	for _, k := range []string{"nextL", "nextR"} {
		if c := n.FieldByName(k); c.Kind() == reflect.Ptr && !c.IsNil() {
			if d := nodeDepth(c) + 1; d > max {
				max = d
			}
		}
	}
	return max
}
