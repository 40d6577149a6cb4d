package main

import (
	"fmt"
	"runtime"
	"sort"
	"strings"

	"github.com/sjwhitworth/golearn/base"
)

func init() {
	register(&Property{ID: "C01", Race: true, Run: runC01,
		Rule: "two or three tasks add, group, mark, unmark, look up and list the attributes of one dataset (and sometimes allocate it) under drawn schedules with pre-emption at statements; the recorded history must have a legal sequential order that respects real time (own Wing-Gong-Lowe search), and afterwards every returned handle must own its storage; run under the race detector",
		Real: "DenseInstances and its attribute groups", Stub: "nothing"})
}

type c01op struct {
	kind string
	attr int    // index into the attributes of the run
	grp  string // group name
	// result
	inv, ret uint64
	ok       bool
	list     []int
	spec     base.AttributeSpec
	bad      string
}

func (o *c01op) String() string {
	s := o.kind
	switch o.kind {
	case "add", "class", "unclass", "get":
		s += fmt.Sprintf(" a%d", o.attr)
	case "addto":
		s += fmt.Sprintf(" a%d %s", o.attr, o.grp)
	case "creategroup", "getgroup":
		s += " " + o.grp
	}
	r := "failed"
	if o.ok {
		r = "ok"
	}
	if o.list != nil {
		r = fmt.Sprint(o.list)
	}
	return fmt.Sprintf("%s -> %s [%d,%d]", s, r, o.inv, o.ret)
}

// c01state is the sequential model.
type c01state struct {
	has    []bool
	class  []bool
	groups map[string]string // custom groups: what their attributes are compatible with, "" while empty
	fixed  bool
}

func (s *c01state) clone() *c01state {
	r := &c01state{has: append([]bool{}, s.has...), class: append([]bool{}, s.class...), groups: map[string]string{}, fixed: s.fixed}
	for k, v := range s.groups {
		r.groups[k] = v
	}
	return r
}

func (s *c01state) key() string {
	var b strings.Builder
	for i := range s.has {
		x := byte('0')
		if s.has[i] {
			x += 1
		}
		if s.class[i] {
			x += 2
		}
		b.WriteByte(x)
	}
	var ks []string
	for k, v := range s.groups {
		ks = append(ks, k+"="+v)
	}
	sort.Strings(ks)
	b.WriteString(strings.Join(ks, ","))
	if s.fixed {
		b.WriteByte('F')
	}
	return b.String()
}

// apply returns the state after op if the sequential model allows the result.
func (s *c01state) apply(o *c01op, kinds []string) *c01state {
	want := true
	var list []int
	n := s
	switch o.kind {
	case "add":
		want = !s.fixed
		if want {
			n = s.clone()
			n.has[o.attr] = true
		}
	case "creategroup":
		want = !s.fixed
		if want {
			n = s.clone()
			n.groups[o.grp] = ""
		}
	case "addto":
		k, is := s.groups[o.grp]
		mine := kinds[o.attr]
		want = !s.fixed && is && (k == "" || k == mine)
		if want {
			n = s.clone()
			n.has[o.attr] = true
			n.groups[o.grp] = mine
		}
	case "class", "unclass":
		want = s.has[o.attr]
		if want {
			n = s.clone()
			n.class[o.attr] = o.kind == "class"
		}
	case "get":
		want = s.has[o.attr]
	case "getgroup":
		_, want = s.groups[o.grp]
	case "extend":
		n = s.clone()
		n.fixed = true
	case "attrs":
		list = trueIdx(s.has)
	case "classes":
		list = trueIdx(s.class)
	case "size":
		list = []int{len(trueIdx(s.has))}
	case "groups":
		list = []int{len(s.groups)}
	}
	if want != o.ok {
		return nil
	}
	if o.list != nil && !sameInts(list, o.list) {
		return nil
	}
	return n
}

func trueIdx(b []bool) []int {
	r := []int{}
	for i, v := range b {
		if v {
			r = append(r, i)
		}
	}
	return r
}

func sameInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// linearizable searches for a legal order of the operations.
func linearizable(ops []*c01op, s0 *c01state, kinds []string) bool {
	seen := map[string]bool{}
	var rec func(done uint64, s *c01state) bool
	rec = func(done uint64, s *c01state) bool {
		if done == 1<<uint(len(ops))-1 {
			return true
		}
		k := fmt.Sprint(done, " ", s.key())
		if seen[k] {
			return false
		}
		seen[k] = true
		min := ^uint64(0)
		for i, o := range ops {
			if done>>uint(i)&1 == 0 && o.ret < min {
				min = o.ret
			}
		}
		for i, o := range ops {
			if done>>uint(i)&1 == 1 || o.inv > min {
				continue
			}
			if n := s.apply(o, kinds); n != nil && rec(done|1<<uint(i), n) {
				return true
			}
		}
		return false
	}
	return rec(0, s0)
}

// cloneAttr returns another attribute equal to a.
func cloneAttr(a base.Attribute) base.Attribute {
	switch a := a.(type) {
	case *base.FloatAttribute:
		return &base.FloatAttribute{Name: a.Name, Precision: a.Precision}
	case *base.BinaryAttribute:
		return base.NewBinaryAttribute(a.Name)
	}
	c := base.NewCategoricalAttribute()
	c.SetName(a.GetName())
	for _, v := range a.(*base.CategoricalAttribute).GetValues() {
		c.GetSysValFromString(v)
	}
	return c
}

func runC01(t *T) {
	nt := 2 + t.D(2)
	var as []base.Attribute
	var kinds []int
	var compat []string
	sameNames := t.P(1, 4)
	na := 2 + t.D(5)
	for i := 0; i < na; i++ {
		c := &colDef{name: fmt.Sprintf("a%d", i), kind: t.D(3), prec: 2}
		if c.kind == kCat {
			c.vals = []string{"x", "y", "z"}
		}
		comp := fmt.Sprint(c.kind)
		if sameNames {
			// different attributes of one name
			old := c.name
			c.name = "a"
			if c.kind == kCat && t.P(2, 3) {
				c.vals = []string{"x", "y", old}
				comp += old
			}
			for _, a := range as {
				if a.Equals(c.newAttr()) {
					c.name = old
				}
			}
		}
		as = append(as, c.newAttr())
		kinds = append(kinds, c.kind)
		compat = append(compat, comp)
	}
	inst := base.NewDenseInstances()
	s0 := &c01state{has: make([]bool, na), class: make([]bool, na), groups: map[string]string{}}
	specs := map[int]base.AttributeSpec{}
	// what the dataset has when the tasks start
	var pad []base.AttributeSpec
	if t.P(1, 12) {
		// just below the size at which a new group is begun
		n := 508 + t.D(5)
		k := t.D(2)
		t.Descf("%d columns of kind %d exist", n, k)
		for i := 0; i < n; i++ {
			c := &colDef{name: fmt.Sprintf("pad%d", i), kind: []int{kFloat, kCat}[k], vals: []string{"x", "y"}, prec: 1}
			pad = append(pad, inst.AddAttribute(c.newAttr()))
		}
	}
	free := t.perm(na)
	for i, n := 0, t.D(3); i < n && len(free) > 1; i++ {
		a := free[0]
		free = free[1:]
		specs[a] = inst.AddAttribute(as[a])
		s0.has[a] = true
	}
	groupSize := func(kind int) int {
		if kind == kBin {
			return 0
		}
		return 8
	}
	gk := t.D(3)
	if t.P(1, 3) {
		inst.CreateAttributeGroup("g0", groupSize(gk))
		s0.groups["g0"] = ""
	}
	// histories; every attribute is added once and a group is created once
	ops := make([][]*c01op, nt)
	left := append([]int{}, free...)
	canCreate := s0.groups["g0"] == "" && len(s0.groups) == 0
	extended := false
	tot := 0
	for k := range ops {
		for i, n := 0, 1+t.D(4); i < n && tot < 12; i++ {
			o := &c01op{attr: t.D(na), grp: "g0"}
			switch t.D(12) {
			case 0, 1, 2, 3:
				if len(left) == 0 {
					o.kind = "get"
					break
				}
				o.attr, left = left[0], left[1:]
				o.kind = "add"
				if t.P(1, 3) && (kinds[o.attr] == gk) {
					o.kind = "addto"
				}
			case 4:
				o.kind = "class"
			case 5:
				o.kind = "unclass"
			case 6:
				o.kind = "get"
			case 7:
				o.kind = "attrs"
				if t.P(1, 3) {
					o.kind = "size"
				}
			case 8:
				o.kind = "classes"
			case 9:
				o.kind = "getgroup"
				if canCreate && t.P(1, 2) {
					canCreate = false
					o.kind = "creategroup"
				}
			case 10:
				o.kind = "groups"
			case 11:
				o.kind = "class"
				if !extended && t.P(1, 4) {
					extended = true
					o.kind = "extend"
				}
			}
			ops[k] = append(ops[k], o)
			tot++
		}
	}
	for k := range ops {
		var s []string
		for _, o := range ops[k] {
			if o.kind == "size" && extended {
				// the number of rows isn't part of the schema
				o.kind = "attrs"
			}
			s = append(s, strings.SplitN(o.String(), " ->", 2)[0])
		}
		t.Descf("task %d: %s", k, strings.Join(s, ", "))
	}
	index := func(a base.Attribute) int {
		for i, b := range as {
			if a == b {
				return i
			}
		}
		return -1
	}
	lookup := make([]base.Attribute, na) // equal, not identical
	for i := range as {
		lookup[i] = as[i]
		if t.P(1, 3) {
			lookup[i] = cloneAttr(as[i])
		}
	}
	names := func(l []base.Attribute) ([]int, string) {
		r := []int{}
		for _, a := range l {
			if i := index(a); i >= 0 {
				r = append(r, i)
			}
		}
		sort.Ints(r)
		for i := 1; i < len(r); i++ {
			if r[i] == r[i-1] {
				return r, fmt.Sprintf("attribute a%d is listed twice", r[i])
			}
		}
		return r, ""
	}
	t.sched(true)
	var fs []func()
	for k := range ops {
		k := k
		fs = append(fs, func() {
			for _, o := range ops[k] {
				o := o
				o.inv = runtime.VerifTick()
				pi := t.Try(func() {
					var err error
					switch o.kind {
					case "add":
						o.spec = inst.AddAttribute(as[o.attr])
					case "addto":
						o.spec, err = inst.AddAttributeToAttributeGroup(as[o.attr], o.grp)
					case "creategroup":
						err = inst.CreateAttributeGroup(o.grp, groupSize(gk))
					case "class":
						err = inst.AddClassAttribute(lookup[o.attr])
					case "unclass":
						err = inst.RemoveClassAttribute(lookup[o.attr])
					case "get":
						var sp base.AttributeSpec
						sp, err = inst.GetAttribute(lookup[o.attr])
						if err == nil && sp.GetAttribute() != as[o.attr] {
							o.bad = "another attribute was returned"
						}
					case "attrs":
						o.list, o.bad = names(inst.AllAttributes())
					case "classes":
						o.list, o.bad = names(inst.AllClassAttributes())
					case "getgroup":
						_, err = inst.GetAttributeGroup(o.grp)
					case "groups":
						n := 0
						for g := range inst.AllAttributeGroups() {
							if g == "g0" {
								n++
							}
						}
						o.list = []int{n}
					case "size":
						n, _ := inst.Size()
						o.list = []int{n - len(pad)}
					case "extend":
						err = inst.Extend(3)
					}
					o.ok = err == nil
				})
				o.ret = runtime.VerifTick()
				if pi != nil && o.kind != "add" {
					o.bad = "the library panicked: " + pi.String()
				}
			}
		})
	}
	t.Tasks(fs...)
	t.Nontrivial()
	var all []*c01op
	for k := range ops {
		for _, o := range ops[k] {
			t.Logf("task %d: %v", k, o)
			if o.bad != "" {
				t.Fail("bad-result:"+o.kind, "%v: %s", o, o.bad)
			}
			all = append(all, o)
			if o.ok && (o.kind == "add" || o.kind == "addto") {
				specs[o.attr] = o.spec
			}
		}
	}
	if !linearizable(all, s0, compat) {
		var s []string
		for k := range ops {
			for _, o := range ops[k] {
				s = append(s, fmt.Sprintf("task %d: %v", k, o))
			}
		}
		t.Fail("not-linearizable", "no order of these operations explains their results: %s", strings.Join(s, "; "))
	}
	// nothing was lost
	got, bad := names(inst.AllAttributes())
	var want []int
	for a := range specs {
		want = append(want, a)
	}
	sort.Ints(want)
	if bad != "" || !sameInts(got, want) {
		t.Fail("lost-attribute", "attributes %v were added, %v are listed %s", want, got, bad)
	}
	if n, _ := inst.Size(); n != len(want)+len(pad) {
		t.Fail("lost-attribute", "%d attributes were added, Size says %d", len(want)+len(pad), n)
	}
	// every handle owns its storage
	rows := 3
	if !extended {
		t.Must("Extend", func() { inst.Extend(rows) })
	}
	val := func(a, r, round int) []byte {
		h := mixSeed(uint64(a*100+r), uint64(round)+1)
		switch kinds[a] {
		case kFloat:
			return base.PackFloatToBytes(float64(h % 100000))
		case kCat:
			return base.PackU64ToBytes(h % 3)
		}
		return []byte{byte(h & 1)}
	}
	for round := 0; round < 3; round++ {
		t.Must("Set and Get", func() {
			for _, a := range want {
				for r := 0; r < rows; r++ {
					inst.Set(specs[a], r, val(a, r, round))
				}
			}
			for i, p := range pad {
				inst.Set(p, 1, base.PackU64ToBytes(uint64(i)%2))
			}
			for _, a := range want {
				for r := 0; r < rows; r++ {
					w := val(a, r, round)
					if g := inst.Get(specs[a], r); string(g) != string(w) {
						t.Fail("shared-storage", "the value written through the handle of a%d is read back as %v instead of %v", a, g, w)
					}
					sp, err := inst.GetAttribute(as[a])
					if err != nil {
						t.Fail("lost-attribute", "a%d can't be found: %v", a, err)
					}
					if g := inst.Get(sp, r); string(g) != string(w) {
						t.Fail("shared-storage", "the value written through the handle of a%d is read back as %v instead of %v through a new handle", a, g, w)
					}
				}
			}
			for i, p := range pad {
				if g := inst.Get(p, 1); string(g) != string(base.PackU64ToBytes(uint64(i)%2)) {
					t.Fail("shared-storage", "the value of column %d changed to %v", i, g)
				}
			}
		})
	}
}
