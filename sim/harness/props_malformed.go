package main

import (
	"bufio"
	"bytes"
	"encoding/csv"
	"fmt"
	"io"
	"strconv"
	"strings"

	"github.com/sjwhitworth/golearn/base"
)

func init() {
	register(&Property{ID: "S10", Run: runS10,
		Rule: "drawn CSV and dense ARFF text is given a malformed record or header, or damaged by the medium (bytes changed, lost, repeated, overwritten, cut), and imported through every entry point in fragments; a reference reading of the same text says which records an import that succeeds has to hold",
		Real: "base CSV and ARFF import, encoding/csv, bufio",
		Stub: "streams and disk are simulated",
	})
}

// arffRecords reads the data section of ARFF text a line at a time.
func arffRecords(text []byte) (recs [][]string, ok bool) {
	sc := bufio.NewScanner(bytes.NewReader(text))
	sc.Buffer(nil, 1<<30)
	data := false
	for sc.Scan() {
		line := sc.Text()
		if !data {
			data = strings.TrimSpace(strings.ToLower(line)) == "@data"
			continue
		}
		if strings.TrimSpace(line) == "" || line[0] == '%' {
			continue
		}
		r := csv.NewReader(strings.NewReader(line))
		r.FieldsPerRecord = -1
		rec, err := r.ReadAll()
		if err != nil || len(rec) > 1 {
			return nil, false
		}
		if len(rec) == 0 {
			continue
		}
		recs = append(recs, rec[0])
	}
	return recs, data
}

// holds compares a dataset with the records of the text it was read from. The
// attributes are found by the names of the columns.
func (t *T) holds(in base.FixedDataGrid, names []string, recs [][]string, blankOK bool) {
	all := in.AllAttributes()
	attrs := make([]base.Attribute, len(all))
	unclear := len(names) != len(all)
	for i, a := range all {
		k := -1
		for j, n := range names {
			if n == a.GetName() {
				unclear = unclear || k >= 0
				k = j
			}
		}
		if k >= 0 && !unclear {
			unclear = attrs[k] != nil
			attrs[k] = all[i]
		} else if k < 0 {
			t.Fail("malformed:columns", "the text has columns %q, the dataset %v", names, all)
		}
	}
	_, rows := in.Size()
	if rows != len(recs) {
		t.Fail("malformed:rows", "the text has %d records and the import reported success with %d rows", len(recs), rows)
	}
	if unclear {
		// two columns of the same name
		t.Probe("same-name")
		return
	}
	specs := base.ResolveAttributes(in, attrs)
	for i, rec := range recs {
		if len(rec) != len(attrs) {
			t.Fail("malformed:width", "record %d of the text has %d values and the import reported success with %d attributes", i, len(rec), len(attrs))
		}
		for j, v := range rec {
			if v == "" && blankOK {
				continue
			}
			v = strings.TrimSpace(v)
			b := in.Get(specs[j], i)
			switch a := attrs[j].(type) {
			case *base.FloatAttribute:
				x, err := strconv.ParseFloat(v, 64)
				if err != nil {
					t.Fail("malformed:number", "record %d has %q for the numeric %s and the import reported success", i, v, a.GetName())
				}
				if y := base.UnpackBytesToFloat(b); x != y && x == x {
					t.Fail("malformed:value", "record %d has %q for %s, the dataset %v", i, v, a.GetName(), y)
				}
			case *base.CategoricalAttribute:
				if s := a.GetStringFromSysVal(b); s != v {
					t.Fail("malformed:value", "record %d has %q for %s, the dataset %q", i, v, a.GetName(), s)
				}
			}
		}
	}
}

func runS10(t *T) {
	cols, recs := t.genText(t.P(1, 3))
	header := !t.P(1, 4)
	isCSV := t.P(1, 2)
	if !isCSV {
		for i := range cols {
			for k := range cols[i].vals {
				cols[i].vals[k] = strings.Replace(cols[i].vals[k], "\n", "/n", -1)
			}
			for _, r := range recs {
				r[i] = strings.Replace(r[i], "\n", "/n", -1)
			}
		}
	}
	mal := t.P(1, 2) // a malformed record or header instead of damage
	must := mal
	var text []byte
	dataAt := 0
	headerOK := true
	if mal {
		t.Fault("malformed")
		k := t.D(len(recs))
		if isCSV && k == 0 {
			// types are inferred from the first record
			k = len(recs) - 1
			if k == 0 {
				recs = append(recs, append([]string{}, recs[0]...))
				k = 1
			}
		}
		i := t.D(len(cols))
		rec := append([]string{}, recs[k]...)
		what := ""
		hdr := func(f func(line string) string) {
			headerOK = false
			text, dataAt = arffText(t, cols, recs)
			h := string(text[:dataAt])
			at := strings.Index(strings.ToLower(h), "@attribute")
			for n := t.D(len(cols)); n > 0; n-- {
				at += 1 + strings.Index(strings.ToLower(h[at+1:]), "@attribute")
			}
			end := at + strings.IndexAny(h[at:], "\r\n")
			text = []byte(h[:at] + f(h[at:end]) + h[end:] + string(text[dataAt:]))
		}
		n := 4
		if !isCSV {
			n = 10
		}
		switch c := t.D(n); c {
		case 0:
			for x := t.R(1, 3); x > 0; x-- {
				rec = append(rec, rec[t.D(len(rec))])
			}
			what = "too many values"
		case 1:
			if len(rec) == 1 {
				rec = append(rec, rec[0])
			} else {
				rec = rec[:t.R(1, len(rec)-1)]
			}
			what = "wrong number of values"
		case 2, 3:
			if cols[i].num {
				rec[i] = []string{"abc", "1.2.3", "--1", "1e", "0x", "1 2", "?", "1;5", "e", "."}[t.D(10)]
				what = fmt.Sprintf("%q for a number", rec[i])
			} else if isCSV {
				rec = append(rec, "x")
				what = "too many values"
			} else {
				rec[i] = []string{"undeclared", "?", "1", "UNDECLARED", "valx", "un declared", "v,u"}[t.D(7)]
				what = fmt.Sprintf("the undeclared value %q", rec[i])
				for _, v := range cols[i].vals {
					if v == rec[i] {
						return
					}
				}
			}
		case 4:
			typ := []string{"string", "date", "{a,b", "{\"a,b}", "{", "numerical", "{a b", "}", "{a;b", "realistic", "relational", "reals"}[t.D(12)]
			what = "the attribute type " + typ
			hdr(func(string) string { return "@attribute col " + typ })
		case 5:
			what = "an attribute without a type"
			hdr(func(string) string { return "@attribute " + []string{"", "col", "\"col", "  col ", "col\t"}[t.D(5)] })
		case 6:
			what = "an attribute too many"
			hdr(func(string) string { return "@attribute col real\n@attribute col2 real" })
		case 7:
			what = "an attribute too few"
			hdr(func(string) string { return "% nothing" })
		case 8:
			what = "values without a bracket"
			hdr(func(l string) string {
				if !strings.HasSuffix(l, "}") {
					return l + "}"
				}
				return l[:len(l)-1]
			})
		case 9:
			what = "no mark before the records"
			headerOK = false
			text, dataAt = arffText(t, cols, recs)
			mark := []string{"@datax", "@data x", "data", "@dat", "% @data", "@data,", "@relation"}[t.D(7)]
			text = []byte(string(text[:dataAt]) + mark + string(text[dataAt+5:]))
		}
		t.Descf("record %d or header malformed: %s", k, what)
		if text == nil {
			q := append([][]string{}, recs...)
			q[k] = rec
			if isCSV {
				text = csvText(t, cols, q, header)
			} else {
				text, dataAt = arffText(t, cols, q)
			}
		}
	} else {
		if isCSV {
			text = csvText(t, cols, recs, header)
		} else {
			text, dataAt = arffText(t, cols, recs)
		}
		for n := t.R(1, 3); n > 0; n-- {
			switch t.F(4) {
			case 0:
				// a character that means something
				i := t.F(len(text) + 1)
				c := []string{",", "\"", "\n", "\r", "%", "@", "{", "}", " ", "\t", "'", "\x00", "\xff", "\\", "@data\n", "-", "."}[t.F(17)]
				text = append(append(append([]byte{}, text[:i]...), c...), text[i:]...)
				t.Fault("inserted")
				t.Descf("%q inserted at %d", c, i)
			default:
				text = t.damage(append([]byte{}, text...), nil)
			}
			if len(text) == 0 {
				break
			}
		}
	}
	if len(text) < 500 {
		t.Descf("text %q", text)
	} else {
		t.Logf("text %q", text)
	}
	t.Nontrivial()
	var in *base.DenseInstances
	var err error
	var pi *PanicInfo
	frag := t.D(5)
	d := t.NewDisk()
	p := d.Path("in")
	d.Seed(p, text)
	d.Mark()
	d.short = frag > 0
	if !isCSV {
		var names []string
		stream := t.P(1, 4) && (!mal || headerOK)
		d.With(func() {
			if !stream {
				pi = t.Try(func() { in, err = base.ParseDenseARFFToInstances(p) })
				return
			}
			// into a prepared dataset, which has the attributes of the intact text
			in = base.NewDenseInstances()
			var as []base.Attribute
			for _, c := range cols {
				var a base.Attribute
				if c.num {
					a = base.NewFloatAttribute(c.name)
				} else {
					a = base.NewCategoricalAttribute()
					a.SetName(c.name)
					for _, v := range c.vals {
						a.GetSysValFromString(v)
					}
				}
				as = append(as, a)
				in.AddAttribute(a)
			}
			var n int
			pi = t.Try(func() {
				if n, err = base.ParseARFFGetRows(p); err == nil {
					in.Extend(n)
					err = base.ParseDenseARFFBuildInstancesFromReader(t.NewReader(text, frag), as, in)
				}
			})
		})
		if pi != nil {
			t.Fail("panic@"+pi.Where, "importing malformed ARFF: %v", pi)
		}
		if err != nil {
			t.Probe("refused")
			return
		}
		t.Probe("accepted")
		if must {
			t.Fail("malformed:accepted", "malformed ARFF was imported without an error")
		}
		q, ok := arffRecords(text)
		if !ok {
			t.Fail("malformed:records", "ARFF with records that can't be read was imported without an error")
		}
		if stream {
			for _, c := range cols {
				names = append(names, c.name)
			}
		} else {
			d.With(func() {
				for _, a := range base.ParseARFFGetAttributes(p) {
					names = append(names, a.GetName())
				}
			})
		}
		t.holds(in, names, q, false)
		return
	}
	entry := t.D(3)
	var template *base.DenseInstances
	if entry == 1 {
		t.Must("template import", func() {
			tt := csvText(t, cols, recs, header)
			template, err = base.ParseCSVToInstancesFromReader(t.NewReader(tt, 0), header)
		})
		if err != nil {
			t.Fail("import-error", "intact CSV was refused: %v", err)
		}
	}
	viaFile := t.P(1, 3)
	t.Descf("entry point %d, file %v, fragmentation %d", entry, viaFile, frag)
	d.With(func() {
		pi = t.Try(func() {
			r := t.NewReader(text, frag)
			switch {
			case entry == 1 && viaFile:
				in, err = base.ParseCSVToTemplatedInstances(p, header, template)
			case entry == 1:
				in, err = base.ParseCSVToTemplatedInstancesFromReader(r, header, template)
			case entry == 2 && viaFile:
				in, err = base.ParseCSVToInstancesWithAttributeGroups(p, nil, nil, nil, header)
			case entry == 2:
				in, err = base.ParseCSVToInstancesWithAttributeGroupsFromReader(r, nil, nil, nil, header)
			case viaFile:
				in, err = base.ParseCSVToInstances(p, header)
			default:
				in, err = base.ParseCSVToInstancesFromReader(r, header)
			}
		})
	})
	if pi != nil {
		t.Fail("panic@"+pi.Where, "importing malformed CSV: %v", pi)
	}
	if err != nil {
		t.Probe("refused")
		return
	}
	t.Probe("accepted")
	if must {
		t.Fail("malformed:accepted", "malformed CSV was imported without an error")
	}
	q, err := csv.NewReader(bytes.NewReader(text)).ReadAll()
	if err != nil && err != io.EOF {
		t.Fail("malformed:records", "CSV with records that can't be read was imported without an error (%v)", err)
	}
	var names []string
	if header && len(q) > 0 {
		for _, n := range q[0] {
			names = append(names, strings.TrimSpace(n))
		}
		q = q[1:]
	} else if len(q) > 0 {
		for i := range q[0] {
			names = append(names, strconv.Itoa(i))
		}
	}
	if entry != 1 {
		t.holds(in, names, q, true)
	} else if _, rows := in.Size(); rows != len(q) {
		t.Fail("malformed:rows", "the text has %d records and the import reported success with %d rows", len(q), rows)
	}
}
