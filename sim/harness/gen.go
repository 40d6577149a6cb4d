package main

import (
	"fmt"
	"math"
	"runtime"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/filters"
)

// Attribute kinds of the reference model.
const (
	kFloat = iota
	kCat
	kBin
)

// colDef describes one column of a reference table.
type colDef struct {
	kind  int
	name  string
	prec  int
	vals  []string
	class bool
}

func (c *colDef) String() string {
	s := ""
	switch c.kind {
	case kFloat:
		s = fmt.Sprintf("%q:float.%d", c.name, c.prec)
	case kCat:
		s = fmt.Sprintf("%q:cat%q", c.name, c.vals)
	case kBin:
		s = fmt.Sprintf("%q:bin", c.name)
	}
	if c.class {
		s += "*"
	}
	return s
}

// table is the reference model of a dataset: every cell is rendered by cellOf.
type table struct {
	cols []*colDef
	rows [][]string
}

func fcell(f float64) string       { return fmt.Sprintf("f%016x", math.Float64bits(f)) }
func ccell(i int, v string) string { return fmt.Sprintf("c%d:%s", i, v) }
func bcell(b bool) string {
	if b {
		return "b1"
	}
	return "b0"
}

func cellFloat(c string) float64 {
	u, _ := strconv.ParseUint(c[1:], 16, 64)
	return math.Float64frombits(u)
}

func cellIdx(c string) int {
	i, _ := strconv.Atoi(c[1:strings.IndexByte(c, ':')])
	return i
}

func showCell(c string) string {
	if c == "" {
		return "?"
	}
	switch c[0] {
	case 'f':
		return strconv.FormatFloat(cellFloat(c), 'g', -1, 64)
	case 'c':
		return c[strings.IndexByte(c, ':')+1:]
	}
	return c[1:]
}

func showRow(r []string) string {
	s := make([]string, len(r))
	for i := range r {
		s[i] = showCell(r[i])
	}
	return strings.Join(s, ",")
}

func (tb *table) describe(t *T, what string) {
	t.Descf("%s: %d rows, columns %v", what, len(tb.rows), tb.cols)
	for i, r := range tb.rows {
		if i >= 12 {
			t.Descf("  ... (%d more)", len(tb.rows)-i)
			break
		}
		t.Descf("  %d: %s", i, showRow(r))
	}
	for _, r := range tb.rows {
		t.Logf("%q", r)
	}
}

func (tb *table) col(name string) int {
	for i, c := range tb.cols {
		if c.name == name {
			return i
		}
	}
	return -1
}

func (tb *table) classNames() []string {
	var s []string
	for _, c := range tb.cols {
		if c.class {
			s = append(s, c.name)
		}
	}
	return s
}

// isText tells whether all names and values are valid UTF-8.
func (tb *table) isText() bool {
	for _, c := range tb.cols {
		if !utf8.ValidString(c.name) {
			return false
		}
		for _, v := range c.vals {
			if !utf8.ValidString(v) {
				return false
			}
		}
	}
	return true
}

func (tb *table) clone() *table {
	r := &table{}
	for _, c := range tb.cols {
		d := *c
		r.cols = append(r.cols, &d)
	}
	for _, row := range tb.rows {
		r.rows = append(r.rows, append([]string{}, row...))
	}
	return r
}

// gopt restricts the generator.
type gopt struct {
	minCols, maxCols int // besides class columns
	minRows, maxRows int
	kinds            []int
	classKind        int // -1: no class column
	minCls, maxCls   int // class values
	nClass           int // number of class columns (default 1 when classKind>=0)
	floats           int // 0 small integers, 1 decimals, 2 wide, 3 with specials, 4 positive decimals, 5 large lattice, 6 close together
	names            int // 0 plain, 1 exotic, 2 also text that is no valid UTF-8
	id               bool
	classFirst       bool // the class column may be placed anywhere
	learn            bool // class correlates with a column
	degenerate       bool // constant columns, duplicate rows, single class
	prec             int  // fixed precision, -1: drawn
	unusedVals       bool // categories that no row uses
	minVals, maxVals int  // values of categorical columns, 0: 1 to 4
	long             bool // long names and values
	big              bool // one dimension is enlarged
}

// enlarge sometimes makes one dimension of the tables much larger than usual.
func (t *T) enlarge(o *gopt, dims ...string) {
	if !strings.HasPrefix(dims[0], "many") && !t.P(1, 50) {
		return
	}
	o.big = true
	t.allow(50)
	switch dims[t.D(len(dims))] {
	case "rows":
		o.minRows, o.maxRows = 60, []int{130, 260}[t.D(2)]
		if t.P(1, 4) {
			o.minRows, o.maxRows = 256, 280
		}
	case "fewrows":
		o.minRows, o.maxRows = 20, 50
		if t.P(1, 3) {
			o.minRows, o.maxRows = 51, 80
		}
	case "cols":
		o.minCols, o.maxCols = 8, []int{20, 70, 140}[t.D(3)]
	case "manycols":
		o.minCols, o.maxCols, o.maxRows = 200, 300, o.minRows+5
	case "manyclasses":
		o.minCls, o.maxCls, o.minRows, o.maxRows = 60, []int{80, 300}[t.D(2)], 3, 12
	case "fewcols":
		o.minCols, o.maxCols = 8, 12
	case "wide": // more than an attribute group holds
		o.minCols, o.maxCols, o.minRows, o.maxRows = 515, 530, 1, 3
		o.kinds = []int{kFloat}
		if t.P(1, 3) {
			o.kinds = []int{kFloat, kFloat, kFloat, kFloat, kFloat, kFloat, kFloat, kFloat, kBin, kCat}
		}
	case "vals":
		o.minVals, o.maxVals = 5, []int{12, 40, 300}[t.D(3)]
		o.minRows, o.maxRows = 10, 40
		o.kinds = []int{kCat, kFloat, kCat}
	case "fewvals":
		o.minVals, o.maxVals = 5, 13
		o.minRows, o.maxRows = 10, 30
		o.kinds = []int{kCat, kFloat, kCat}
	case "classes":
		o.minCls, o.maxCls = 5, 13
		o.minRows, o.maxRows = 14, 30
	case "long":
		o.long = true
	}
}

var exoticNames = []string{"a b", "ä", "名前", "x;y", "tab\tname", "%d", "-", "A\"q", "UPPER", "1", "c\\d", "with,comma"}
var exoticVals = []string{"two words", "ü", "值", "x\"y", "a,b", "%s", "", " ", "-1", "NaN", "a'b", "line\nbreak", "\\", "0"}
var rawText = []string{"caf\xe9", "caf\xe8", "\xff", "caf\ufffd", "\xc3"}
var plainVals = []string{"aa", "bb", "cc", "dd", "ee", "ff"}

func (t *T) genFloat(mode int) float64 {
	switch mode {
	case 0:
		return float64(t.D(7))
	case 1:
		return float64(t.D(2001)-1000) / 100
	case 4:
		return float64(1+t.D(99999)) / 10000
	case 5: // large magnitudes on a lattice, negative too
		return float64(t.D(41)-20) * 10
	case 6: // values that lie close together
		return (float64(t.D(5)) + math.Ldexp(float64(t.D(7)), -32)) / 3
	}
	k := t.D(8)
	switch {
	case k < 3:
		return float64(t.D(21) - 10)
	case k < 5:
		return float64(t.D(200001)-100000) / 1000
	case k == 5:
		return math.Ldexp(float64(t.D(1<<20)-1<<19), t.D(200)-100)
	case k == 6:
		if mode == 3 && t.P(1, 2) {
			return math.Copysign(0, float64(1-2*t.D(2)))
		}
		return float64(t.D(1<<30)) * 1e5
	}
	if mode == 3 {
		sp := []float64{math.Inf(1), math.Inf(-1), math.NaN(), math.Copysign(0, -1), math.MaxFloat64, math.SmallestNonzeroFloat64}
		return sp[t.D(len(sp))]
	}
	return 0.1 + float64(t.D(10))
}

func (t *T) genTable(o gopt) *table {
	tb := &table{}
	n := t.R(o.minCols, o.maxCols)
	if o.kinds == nil {
		o.kinds = []int{kFloat, kCat, kBin}
	}
	used := map[string]bool{}
	name := func(def string) string {
		if o.names > 0 && t.P(1, 4) {
			s := exoticNames[t.D(len(exoticNames))]
			if o.names == 2 && t.P(1, 2) {
				s = rawText[t.D(len(rawText))]
			}
			if !used[s] {
				used[s] = true
				return s
			}
		}
		used[def] = true
		if o.long && t.P(1, 2) {
			return longText(def, t.D(6))
		}
		return def
	}
	cats := func(lo, hi int) []string {
		k := t.R(lo, hi)
		var vs []string
		seen := map[string]bool{}
		for i := 0; i < k; i++ {
			v := fmt.Sprintf("v%d", i)
			if i < len(plainVals) {
				v = plainVals[i]
			}
			if o.names > 0 && t.P(1, 4) {
				v = exoticVals[t.D(len(exoticVals))]
				if o.names == 2 && t.P(1, 2) {
					v = rawText[t.D(len(rawText))]
				}
			}
			if o.long && t.P(1, 3) {
				v = longText(v, t.D(6))
			}
			if seen[v] {
				v = fmt.Sprintf("u%d", i)
			}
			seen[v] = true
			vs = append(vs, v)
		}
		return vs
	}
	prec := func() int {
		if o.prec >= 0 {
			return o.prec
		}
		return t.D(7)
	}
	for i := 0; i < n; i++ {
		c := &colDef{kind: o.kinds[t.D(len(o.kinds))], name: name(fmt.Sprintf("col%d", i))}
		switch c.kind {
		case kFloat:
			c.prec = prec()
		case kCat:
			if o.maxVals > 0 {
				c.vals = cats(o.minVals, o.maxVals)
			} else {
				c.vals = cats(1, 4)
			}
		}
		tb.cols = append(tb.cols, c)
	}
	if o.id {
		c := &colDef{kind: kFloat, name: "id", prec: 0}
		used["id"] = true
		tb.cols = append(tb.cols, c)
	}
	nc := 0
	if o.classKind >= 0 {
		nc = o.nClass
		if nc == 0 {
			nc = 1
		}
	}
	for i := 0; i < nc; i++ {
		c := &colDef{kind: o.classKind, name: name(fmt.Sprintf("class%d", i)), class: true}
		switch c.kind {
		case kFloat:
			c.prec = prec()
		case kCat:
			lo, hi := o.minCls, o.maxCls
			if lo == 0 {
				lo, hi = 2, 4
			}
			c.vals = cats(lo, hi)
		}
		if o.classFirst && t.P(1, 3) {
			p := t.D(len(tb.cols) + 1)
			tb.cols = append(tb.cols, nil)
			copy(tb.cols[p+1:], tb.cols[p:])
			tb.cols[p] = c
		} else {
			tb.cols = append(tb.cols, c)
		}
	}
	rows := t.R(o.minRows, o.maxRows)
	constant := map[int]string{}
	oneClass := false
	if o.degenerate {
		oneClass = t.P(1, 4)
	}
	link := 0
	for r := 0; r < rows; r++ {
		if r > 0 && o.degenerate && t.P(1, 4) {
			row := append([]string{}, tb.rows[t.D(r)]...)
			if i := tb.col("id"); o.id && i >= 0 {
				row[i] = fcell(float64(r))
			}
			tb.rows = append(tb.rows, row)
			continue
		}
		row := make([]string, len(tb.cols))
		for i, c := range tb.cols {
			if c.name == "id" && o.id {
				row[i] = fcell(float64(r))
				continue
			}
			if r == 0 && o.degenerate && !c.class && t.P(1, 4) {
				constant[i] = "x"
			}
			if v, ok := constant[i]; ok && v != "x" {
				row[i] = v
				continue
			}
			switch c.kind {
			case kFloat:
				row[i] = fcell(t.genFloat(o.floats))
			case kCat:
				k := len(c.vals)
				if o.unusedVals && k > 1 {
					k--
				}
				j := 0
				switch {
				case c.class && oneClass:
				case c.class && o.learn && t.P(2, 3) && !t.P(1, 5):
					if tb.cols[link].class || tb.cols[link].name == "id" {
						j = r % k
						break
					}
					j = int(row0(row[link], tb.cols[link])) % k
					if j < 0 {
						j = -j
					}
				default:
					j = t.D(k)
				}
				row[i] = ccell(j, c.vals[j])
			case kBin:
				row[i] = bcell(t.P(1, 2))
			}
			if constant[i] == "x" {
				constant[i] = row[i]
			}
		}
		tb.rows = append(tb.rows, row)
	}
	return tb
}

func longText(s string, k int) string {
	return s + strings.Repeat("x", []int{90, 240, 255, 256, 400, 5000}[k])
}

// row0 is a small integer derived from a cell.
func row0(c string, d *colDef) float64 {
	switch {
	case c == "":
		return 0
	case d.kind == kFloat:
		f := cellFloat(c)
		if f != f || math.IsInf(f, 0) || math.Abs(f) > 1e6 {
			return 0
		}
		return math.Floor(f)
	case d.kind == kCat:
		return float64(cellIdx(c))
	}
	return float64(c[1] - '0')
}

func (c *colDef) newAttr() base.Attribute {
	switch c.kind {
	case kFloat:
		a := base.NewFloatAttribute(c.name)
		a.Precision = c.prec
		return a
	case kCat:
		a := base.NewCategoricalAttribute()
		a.SetName(c.name)
		for _, v := range c.vals {
			a.GetSysValFromString(v)
		}
		return a
	}
	return base.NewBinaryAttribute(c.name)
}

func packCell(c string) []byte {
	switch c[0] {
	case 'f':
		return base.PackFloatToBytes(cellFloat(c))
	case 'c':
		return base.PackU64ToBytes(uint64(cellIdx(c)))
	}
	return []byte{c[1] - '0'}
}

// build makes a DenseInstances of the table; layout varies the attribute
// groups and the number of allocation steps.
func (t *T) build(tb *table, layout bool) *base.DenseInstances {
	d := base.NewDenseInstances()
	specs := make([]base.AttributeSpec, len(tb.cols))
	custom := 0
	if layout {
		custom = t.D(4)
	}
	// custom 0: default groups, 1: each column in a group of its own,
	// 2: two interleaved groups per kind, 3: mixed
	groups := map[string]bool{}
	for i, c := range tb.cols {
		a := c.newAttr()
		own := custom
		if custom == 3 && t.P(1, 2) {
			own = 0
		}
		if own == 0 {
			specs[i] = d.AddAttribute(a)
		} else {
			g := fmt.Sprintf("G%d", i)
			if own != 1 && c.kind != kCat {
				g = fmt.Sprintf("K%d_%d", c.kind, i%2)
			}
			if !groups[g] {
				groups[g] = true
				sz := 8
				if c.kind == kBin {
					sz = 0
				}
				if err := d.CreateAttributeGroup(g, sz); err != nil {
					panic("harness: " + err.Error())
				}
			}
			s, err := d.AddAttributeToAttributeGroup(a, g)
			if err != nil {
				panic("harness: " + err.Error())
			}
			specs[i] = s
		}
		if c.class {
			if err := d.AddClassAttribute(a); err != nil {
				panic("harness: " + err.Error())
			}
		}
	}
	n := len(tb.rows)
	first := n
	if layout && n > 1 && t.P(1, 3) {
		first = 1 + t.D(n-1)
	}
	d.Extend(first)
	for r, row := range tb.rows {
		if r == first {
			d.Extend(n - first)
		}
		for i, c := range row {
			d.Set(specs[i], r, packCell(c))
		}
	}
	return d
}

// colOf describes an attribute of the library.
func colOf(a base.Attribute) *colDef {
	switch x := a.(type) {
	case *base.FloatAttribute:
		return &colDef{kind: kFloat, name: x.GetName(), prec: x.Precision}
	case *base.CategoricalAttribute:
		return &colDef{kind: kCat, name: x.GetName(), vals: append([]string{}, x.GetValues()...)}
	case *base.BinaryAttribute:
		return &colDef{kind: kBin, name: x.GetName()}
	}
	return &colDef{kind: -1, name: fmt.Sprintf("%T", a)}
}

func cellOf(a base.Attribute, b []byte) string {
	switch x := a.(type) {
	case *base.FloatAttribute:
		if len(b) != 8 {
			return fmt.Sprintf("!%d", len(b))
		}
		return fcell(base.UnpackBytesToFloat(b))
	case *base.CategoricalAttribute:
		if len(b) != 8 {
			return fmt.Sprintf("!%d", len(b))
		}
		i := base.UnpackBytesToU64(b)
		vs := x.GetValues()
		if i >= uint64(len(vs)) {
			return fmt.Sprintf("!range%d", i)
		}
		return ccell(int(i), vs[i])
	case *base.BinaryAttribute:
		if len(b) < 1 {
			return "!0"
		}
		return bcell(b[0] > 0)
	}
	return "!"
}

func classSet(g base.FixedDataGrid) []base.Attribute { return g.AllClassAttributes() }

// snap reads a grid by position.
func (t *T) snap(what string, g base.FixedDataGrid) *table {
	var tb *table
	t.Must("reading "+what, func() { tb = snapRaw(g, nil) })
	return tb
}

func headOf(g base.FixedDataGrid) (*table, []base.AttributeSpec, []base.Attribute) {
	tb := &table{}
	var specs []base.AttributeSpec
	attrs := g.AllAttributes()
	cls := g.AllClassAttributes()
	for _, a := range attrs {
		c := colOf(a)
		for _, k := range cls {
			if k.Equals(a) {
				c.class = true
			}
		}
		tb.cols = append(tb.cols, c)
		s, err := g.GetAttribute(a)
		if err != nil {
			panic(fmt.Errorf("GetAttribute(%s): %v", a, err))
		}
		specs = append(specs, s)
	}
	return tb, specs, attrs
}

func snapRaw(g base.FixedDataGrid, specs []base.AttributeSpec) *table {
	tb, sp, attrs := headOf(g)
	if specs == nil {
		specs = sp
	}
	_, n := g.Size()
	for r := 0; r < n; r++ {
		row := make([]string, len(attrs))
		for i, a := range attrs {
			row[i] = cellOf(a, g.Get(specs[i], r))
		}
		tb.rows = append(tb.rows, row)
	}
	return tb
}

// snapMap reads a grid by iteration; problems describes positions visited
// twice, out of range or never.
func (t *T) snapMap(what string, g base.FixedDataGrid) (tb *table, problem string) {
	t.Must("iterating "+what, func() { tb, problem = rawMap(g) })
	return
}

func rawMap(g base.FixedDataGrid) (tb *table, problem string) {
	var specs []base.AttributeSpec
	var attrs []base.Attribute
	tb, specs, attrs = headOf(g)
	_, n := g.Size()
	tb.rows = make([][]string, n)
	err := g.MapOverRows(specs, func(b [][]byte, r int) (bool, error) {
		if r < 0 || r >= n {
			problem = fmt.Sprintf("row number %d of %d rows", r, n)
			return true, nil
		}
		if tb.rows[r] != nil {
			problem = fmt.Sprintf("row %d delivered twice", r)
			return true, nil
		}
		row := make([]string, len(attrs))
		for i, a := range attrs {
			row[i] = cellOf(a, b[i])
		}
		tb.rows[r] = row
		return true, nil
	})
	if err != nil && problem == "" {
		problem = "MapOverRows: " + err.Error()
	}
	for r := range tb.rows {
		if tb.rows[r] == nil && problem == "" {
			problem = fmt.Sprintf("row %d never delivered", r)
		}
	}
	return
}

// memberSnap is what an ensemble member sees, read by position or by
// iteration; a row that iteration doesn't deliver properly has no cells.
func memberSnap(g base.FixedDataGrid, iter bool) *table {
	if !iter {
		return snapOf(g)
	}
	tb, problem := rawMap(g)
	for r := range tb.rows {
		if tb.rows[r] == nil {
			tb.rows[r] = make([]string, len(tb.cols))
			for i := range tb.rows[r] {
				tb.rows[r][i] = "! " + problem
			}
		}
	}
	if problem != "" && len(tb.rows) > 0 {
		tb.rows[0][0] = "! " + problem
	}
	return tb
}

func sameStrs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

type cmpOpt struct {
	ordered  bool // column order matters
	noPrec   bool
	noClass  bool
	noVals   bool // category lists need not be equal, only the values of the cells
	rounding bool // floats compared at the precision of the first table
}

// diff compares two tables column by column (matched by name); "" if equal.
func diff(a, b *table, o cmpOpt) string {
	if len(a.cols) != len(b.cols) {
		return fmt.Sprintf("%d columns %v instead of %d %v", len(b.cols), b.cols, len(a.cols), a.cols)
	}
	if len(a.rows) != len(b.rows) {
		return fmt.Sprintf("%d rows instead of %d", len(b.rows), len(a.rows))
	}
	m := make([]int, len(a.cols))
	for i, c := range a.cols {
		j := b.col(c.name)
		if j < 0 {
			return fmt.Sprintf("column %q is missing (have %v)", c.name, b.cols)
		}
		if o.ordered && j != i {
			return fmt.Sprintf("column %q at position %d instead of %d", c.name, j, i)
		}
		m[i] = j
		d := b.cols[j]
		if c.kind != d.kind {
			return fmt.Sprintf("column %v became %v", c, d)
		}
		if !o.noPrec && c.prec != d.prec {
			return fmt.Sprintf("column %v became %v (precision)", c, d)
		}
		if !o.noVals && !sameStrs(c.vals, d.vals) {
			return fmt.Sprintf("column %v became %v (values)", c, d)
		}
		if !o.noClass && c.class != d.class {
			return fmt.Sprintf("column %v became %v (class)", c, d)
		}
	}
	for r := range a.rows {
		for i, c := range a.cols {
			x, y := a.rows[r][i], b.rows[r][m[i]]
			if x == y {
				continue
			}
			if c.kind == kCat && o.noVals && showCell(x) == showCell(y) && x[0] == 'c' && y != "" && y[0] == 'c' {
				continue
			}
			if c.kind == kFloat && o.rounding && x[0] == 'f' && len(y) > 0 && y[0] == 'f' {
				w, err := strconv.ParseFloat(fmt.Sprintf("%.*f", c.prec, cellFloat(x)), 64)
				if err == nil && (w == cellFloat(y) || (w != w && cellFloat(y) != cellFloat(y))) {
					continue
				}
			}
			return fmt.Sprintf("row %d column %q is %s instead of %s", r, c.name, showCell(y), showCell(x))
		}
	}
	return ""
}

// ---------------------------------------------------------------- views

// vgrid is a grid of the library together with the table it must show.
type vgrid struct {
	g    base.FixedDataGrid
	ref  *table
	desc []string

	parent *vgrid
	derive func(ref *table) *table // the table of this view, from its parent's
	class  map[string]bool         // class columns, fixed when the grid is made
	dense  *base.DenseInstances    // non-nil: owns its rows
	kind   string
}

// expect recomputes the reference table after changes further down.
func (v *vgrid) expect() *table {
	r := v.ref
	if v.derive != nil {
		r = v.derive(v.parent.expect())
	}
	if v.class != nil {
		r = r.clone()
		for _, c := range r.cols {
			c.class = v.class[c.name]
		}
	}
	return r
}

func (v *vgrid) fixClass() {
	v.class = map[string]bool{}
	for _, c := range v.ref.cols {
		if c.class {
			v.class[c.name] = true
		}
	}
}

func (t *T) root(tb *table, layout bool) *vgrid {
	d := t.build(tb, layout)
	// the order of columns is the library's choice (group by group); it is
	// taken over into the reference once, here
	ref := &table{}
	for _, a := range d.AllAttributes() {
		i := tb.col(a.GetName())
		if i < 0 {
			t.Fail("dense-lost-column", "AllAttributes lists %q which was never added", a.GetName())
		}
		ref.cols = append(ref.cols, tb.cols[i])
	}
	if len(ref.cols) != len(tb.cols) {
		t.Fail("dense-lost-column", "AllAttributes lists %d columns of %d", len(ref.cols), len(tb.cols))
	}
	ref2 := ref.clone()
	for _, row := range tb.rows {
		r := make([]string, len(ref.cols))
		for i, c := range ref.cols {
			r[i] = row[tb.col(c.name)]
		}
		ref2.rows = append(ref2.rows, r)
	}
	v := &vgrid{g: d, ref: ref2, dense: d, kind: "dense"}
	v.fixClass()
	return v
}

func (v *vgrid) attr(i int) base.Attribute { return v.g.AllAttributes()[i] }

// allow lets a run with more to do take f times the usual number of steps, and
// more if it has more of several things to do.
func (t *T) allow(f uint64) {
	t.limit *= f
	if most := 1000 * t.prop.Limit; t.limit > most {
		t.limit = most
	}
	runtime.VerifSetLimit(t.limit)
}

// few is a small number of rows, or now and then a larger one.
func (t *T) few(n int) int {
	if t.P(1, 40) {
		t.allow(5)
		return 30 + t.D(120)
	}
	return 1 + t.D(n)
}

// pick selects columns of the reference table by position.
func (tb *table) pick(idx []int) *table {
	r := &table{}
	for _, i := range idx {
		d := *tb.cols[i]
		r.cols = append(r.cols, &d)
	}
	for _, row := range tb.rows {
		n := make([]string, len(idx))
		for k, i := range idx {
			n[k] = row[i]
		}
		r.rows = append(r.rows, n)
	}
	return r
}

func (tb *table) pickRows(idx []int) *table {
	r := tb.clone()
	r.rows = nil
	for _, i := range idx {
		r.rows = append(r.rows, append([]string{}, tb.rows[i]...))
	}
	return r
}

func (t *T) perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := i - t.D(i+1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// subset draws a non-empty (if n>0) ordered selection of [0,n).
func (t *T) subset(n, min int, keep func(int) bool) []int {
	if n == 0 {
		return nil
	}
	var s []int
	for i := 0; i < n; i++ {
		if (keep != nil && keep(i)) || !t.P(1, 3) {
			s = append(s, i)
		}
	}
	for i := 0; i < n && len(s) < min; i++ {
		in := false
		for _, x := range s {
			in = in || x == i
		}
		if !in {
			s = append(s, i)
		}
	}
	if t.P(1, 2) {
		p := t.perm(len(s))
		q := make([]int, len(s))
		for i, j := range p {
			q[i] = s[j]
		}
		s = q
	}
	return s
}

type viewOpt struct {
	keepClass bool // never drop a class column
	minRows   int
	filters   bool
	copies    bool
	noDup     bool // no repeated rows
}

// stack puts one more view on v.
func (t *T) stack(v *vgrid, o viewOpt) *vgrid {
	v.ref = v.expect()
	n := len(v.ref.rows)
	kinds := 3
	if o.copies {
		kinds++
	}
	if o.filters {
		kinds++
	}
	k := t.D(kinds)
	if k == 3 && !o.copies {
		k = 4
	}
	attrs := v.g.AllAttributes()
	pickCols := func() ([]int, []base.Attribute) {
		idx := t.subset(len(v.ref.cols), 1, func(i int) bool { return o.keepClass && v.ref.cols[i].class })
		var as []base.Attribute
		for _, i := range idx {
			as = append(as, attrs[i])
		}
		return idx, as
	}
	out := &vgrid{desc: append([]string{}, v.desc...), parent: v}
	switch k {
	case 0:
		idx, as := pickCols()
		t.Must("view of columns", func() { out.g = base.NewInstancesViewFromAttrs(v.g, as) })
		out.derive = func(r *table) *table { return r.pick(idx) }
		out.kind = "columns"
		out.desc = append(out.desc, fmt.Sprintf("columns%v", idx))
	case 1:
		idx, as := pickCols()
		var rows []int
		if n > 0 {
			m := t.R(o.minRows, n+n/2+1)
			for i := 0; i < m; i++ {
				rows = append(rows, t.D(n))
			}
			if o.noDup || t.P(1, 2) {
				p := t.perm(n)
				if m > n {
					m = n
				}
				rows = p[:m]
			}
		}
		t.Must("view of rows", func() { out.g = base.NewInstancesViewFromVisible(v.g, append([]int{}, rows...), as) })
		out.derive = func(r *table) *table { return r.pick(idx).pickRows(rows) }
		out.kind = "visible"
		out.desc = append(out.desc, fmt.Sprintf("visible rows%v columns%v", rows, idx))
	case 2:
		m := map[int]int{}
		if n > 0 {
			if o.noDup {
				for i, j := range t.perm(n) {
					m[i] = j
				}
			} else {
				for i := 0; i < n; i++ {
					if t.P(1, 2) {
						m[i] = t.D(n)
					}
				}
				if t.P(1, 8) {
					// more rows than the source has
					for i, k := 0, n+t.R(1, 4); i < k; i++ {
						if _, ok := m[i]; !ok {
							m[i] = t.D(n)
						}
					}
				}
			}
		}
		mm := map[int]int{}
		for a, b := range m {
			mm[a] = b
		}
		t.Must("view of remapped rows", func() { out.g = base.NewInstancesViewFromRows(v.g, mm) })
		out.derive = func(r *table) *table {
			sel := make([]int, max(len(r.rows), len(m)))
			for i := range sel {
				sel[i] = i
				if j, ok := m[i]; ok {
					sel[i] = j
				}
			}
			return r.pickRows(sel)
		}
		out.kind = "remap"
		out.desc = append(out.desc, fmt.Sprintf("remap rows%v", m))
	case 3:
		var d *base.DenseInstances
		t.Must("copy", func() { d = base.NewDenseCopy(v.g) })
		out.g, out.dense, out.parent, out.kind = d, d, nil, "copy"
		// a copy groups its columns by kind; the order is its own
		out.ref = reorder(t, v.expect(), out.g)
		out.fixClass()
		out.desc = append(out.desc, "dense copy")
		return out
	case 4:
		return t.filterView(v)
	}
	out.ref = out.derive(v.expect())
	out.fixClass()
	return out
}

func reorder(t *T, ref *table, g base.FixedDataGrid) *table {
	var idx []int
	for _, a := range g.AllAttributes() {
		i := ref.col(a.GetName())
		if i < 0 {
			t.Fail("copy-lost-column", "column %q appeared from nowhere", a.GetName())
		}
		idx = append(idx, i)
	}
	if len(idx) != len(ref.cols) {
		t.Fail("copy-lost-column", "%d columns of %d", len(idx), len(ref.cols))
	}
	return ref.pick(idx)
}

// filterView puts a float- or binary-conversion filter on some columns.
func (t *T) filterView(v *vgrid) *vgrid {
	toFloat := t.P(1, 2)
	var f base.Filter
	if toFloat {
		f = filters.NewFloatConvertFilter()
	} else {
		f = filters.NewBinaryConvertFilter()
	}
	v.ref = v.expect()
	attrs := v.g.AllAttributes()
	chosen := map[int]bool{}
	var desc []int
	for i, c := range v.ref.cols {
		if t.P(1, 2) {
			continue
		}
		if c.kind == kCat && len(c.vals) == 0 {
			continue
		}
		chosen[i] = true
		desc = append(desc, i)
		f.AddAttribute(attrs[i])
	}
	out := &vgrid{parent: v, kind: "filter", desc: append(append([]string{}, v.desc...), fmt.Sprintf("%s of columns%v", map[bool]string{true: "float filter", false: "binary filter"}[toFloat], desc))}
	t.Must("filter training", func() { f.Train() })
	t.Must("filter view", func() { out.g = base.NewLazilyFilteredInstances(v.g, f) })
	// expected columns
	ref := &table{}
	type src struct {
		i   int
		val int // >=0: one-hot of this category
	}
	var from []src
	nk := kFloat
	if !toFloat {
		nk = kBin
	}
	for i, c := range v.ref.cols {
		d := *c
		if !chosen[i] {
			ref.cols = append(ref.cols, &d)
			from = append(from, src{i, -2})
			continue
		}
		if c.kind == kCat && len(c.vals) > 2 {
			for k, val := range c.vals {
				ref.cols = append(ref.cols, &colDef{kind: nk, name: c.name + "_" + val, class: c.class})
				from = append(from, src{i, k})
			}
			continue
		}
		d.kind, d.vals, d.prec = nk, nil, 0
		ref.cols = append(ref.cols, &d)
		from = append(from, src{i, -1})
	}
	if nk == kFloat {
		// precision of converted columns is the library's default
		as := out.g.AllAttributes()
		if len(as) == len(ref.cols) {
			for i := range as {
				if fa, ok := as[i].(*base.FloatAttribute); ok {
					ref.cols[i].prec = fa.Precision
				}
			}
		}
	}
	num := func(x float64) string {
		if nk == kFloat {
			return fcell(x)
		}
		return bcell(x != 0)
	}
	out.derive = func(p *table) *table {
		res := &table{cols: ref.cols}
		for _, row := range p.rows {
			r := make([]string, len(from))
			for k, s := range from {
				c := row[s.i]
				switch {
				case s.val == -2:
					r[k] = c
				case s.val >= 0:
					if cellIdx(c) == s.val {
						r[k] = num(1)
					} else {
						r[k] = num(0)
					}
				case c[0] == 'f':
					r[k] = num(cellFloat(c))
				case c[0] == 'c':
					if cellIdx(c) > 0 {
						r[k] = num(1)
					} else {
						r[k] = num(0)
					}
				default:
					r[k] = num(float64(c[1] - '0'))
				}
			}
			res.rows = append(res.rows, r)
		}
		return res.clone()
	}
	out.ref = out.derive(v.expect())
	out.fixClass()
	return out
}

// reclass marks or unmarks a class column on a view, sometimes.
func (t *T) reclass(v *vgrid) {
	if v.kind == "filter" || len(v.ref.cols) == 0 || !t.P(1, 4) {
		return
	}
	i := t.D(len(v.ref.cols))
	c := v.ref.cols[i]
	on := !v.class[c.name]
	var err error
	t.Must("class attribute of a view", func() {
		a := v.g.AllAttributes()[i]
		if on {
			err = v.g.AddClassAttribute(a)
		} else {
			err = v.g.RemoveClassAttribute(a)
		}
	})
	if err != nil {
		t.Fail("class-op", "class attribute %q of a view: %v", c.name, err)
	}
	v.class[c.name] = on
	v.ref = v.expect()
	v.desc = append(v.desc, fmt.Sprintf("class column %q: %v", c.name, on))
}

// genView builds a dataset and up to depth views on it.
func (t *T) genView(o gopt, depth int, vo viewOpt) *vgrid {
	tb := t.genTable(o)
	v := t.root(tb, true)
	v.ref.describe(t, "dataset")
	if o.big && depth > 1 {
		depth = 1
	}
	for i := 0; i < depth; i++ {
		if t.P(1, 2) {
			v = t.stack(v, vo)
			if !vo.keepClass {
				t.reclass(v)
			}
		}
	}
	for _, d := range v.desc {
		t.Descf("view: %s", d)
	}
	return v
}
