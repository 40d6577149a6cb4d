package main

import (
	"bytes"
	"fmt"
	"sort"
	"strings"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/clustering"
	"github.com/sjwhitworth/golearn/evaluation"
	"github.com/sjwhitworth/golearn/metrics/pairwise"
)

func init() {
	register(&Property{ID: "B05", Race: true, Run: runB05,
		Rule: "two to four tasks read one dataset, view or filtered dataset, ask one trained model or ensemble, train further models and ensembles and evaluate predictions at once, under drawn schedules, pre-emptions and processor counts and the race detector; each call's result must be the one it returns alone",
		Real: "datasets, views, filtered datasets, every learner, ensembles, exports, evaluation, clustering", Stub: "nothing (C code is not watched by the race detector)"})
}

// job is one call of a task; det tells whether its result is determined.
type job struct {
	name string
	det  bool
	f    func() (string, error)
}

// outcome of a job.
type jobRes struct {
	s   string
	err error
	pi  *PanicInfo
}

func (j *job) run(t *T) (r jobRes) {
	r.pi = t.Try(func() { r.s, r.err = j.f() })
	return
}

// readJobs lists the ways to read a dataset. They draw nothing when called.
func (t *T) readJobs(g base.FixedDataGrid, mat bool) []*job {
	as := g.AllAttributes()
	_, rows := g.Size()
	row := 0
	if rows > 0 {
		row = t.D(rows)
	}
	col := t.D(len(as))
	ret := []*job{
		{"read by position", true, func() (string, error) {
			var b bytes.Buffer
			_, n := g.Size()
			for _, s := range base.ResolveAllAttributes(g) {
				for r := 0; r < n; r++ {
					b.WriteString(s.GetAttribute().GetStringFromSysVal(g.Get(s, r)))
					b.WriteByte(';')
				}
			}
			return b.String(), nil
		}},
		{"iterate", true, func() (string, error) {
			var b bytes.Buffer
			ss := base.ResolveAllAttributes(g)
			err := g.MapOverRows(ss, func(v [][]byte, r int) (bool, error) {
				fmt.Fprint(&b, r)
				for i, s := range ss {
					b.WriteString(s.GetAttribute().GetStringFromSysVal(v[i]))
					b.WriteByte(';')
				}
				return true, nil
			})
			return b.String(), err
		}},
		{"look up", true, func() (string, error) {
			c, r := g.Size()
			s := fmt.Sprint(c, r)
			for _, a := range g.AllAttributes() {
				sp, err := g.GetAttribute(a)
				if err != nil {
					return s, err
				}
				s += "," + sp.GetAttribute().GetName()
			}
			for _, a := range g.AllClassAttributes() {
				s += "*" + a.GetName()
			}
			return s, nil
		}},
		{"String", true, func() (string, error) {
			if s, ok := g.(fmt.Stringer); ok {
				return s.String(), nil
			}
			return "", nil
		}},
		{"copy", true, func() (string, error) { return snapOf(base.NewDenseCopy(g)).text(), nil }},
		{"structure", true, func() (string, error) { return snapOf(base.NewStructuralCopy(g)).text(), nil }},
		{"prediction vector", true, func() (string, error) { return snapOf(base.GeneratePredictionVector(g)).text(), nil }},
		{"column view", true, func() (string, error) {
			return snapOf(base.NewInstancesViewFromAttrs(g, []base.Attribute{as[col]})).text(), nil
		}},
		{"compatible", true, func() (string, error) {
			return fmt.Sprint(base.CheckStrictlyCompatible(g, g), len(base.CheckCompatible(g, g)), base.InstancesAreEqual(g, g)), nil
		}},
		{"shuffling", false, func() (string, error) {
			base.NewDenseCopy(base.LazyShuffle(g))
			return "", nil
		}},
	}
	if rows > 0 {
		ret = append(ret, &job{"row", true, func() (string, error) { return g.RowString(row), nil }},
			&job{"sorted view", true, func() (string, error) {
				v, err := base.LazySort(g, base.Ascending, base.ResolveAttributes(g, []base.Attribute{as[col]}))
				if err != nil {
					return "", err
				}
				return snapOf(v).text(), nil
			}})
	}
	for _, ex := range exporters() {
		ex := ex
		ret = append(ret, &job{"export " + ex.name, true, func() (string, error) {
			w := &SimWriter{failAt: -1}
			err := ex.str(g, w)
			return string(w.b), err
		}})
	}
	if len(g.AllClassAttributes()) == 1 {
		ret = append(ret, &job{"class distribution", true, func() (string, error) {
			return fmt.Sprint(sortedCounts(base.GetClassDistribution(g))), nil
		}}, &job{"classes", true, func() (string, error) {
			s := ""
			_, n := g.Size()
			for r := 0; r < n; r++ {
				s += base.GetClass(g, r) + ";"
			}
			return s, nil
		}}, &job{"confusion matrix", true, func() (string, error) {
			m, err := evaluation.GetConfusionMatrix(g, g)
			if err != nil {
				return "", err
			}
			return fmt.Sprint(evaluation.GetAccuracy(m)), nil
		}})
		switch a := as[col].(type) {
		case *base.FloatAttribute:
			ret = append(ret, &job{"split by threshold", true, func() (string, error) {
				return parts(base.DecomposeOnNumericAttributeThreshold(g, a, 0)), nil
			}})
		case *base.CategoricalAttribute:
			ret = append(ret, &job{"split by value", true, func() (string, error) {
				return parts(base.DecomposeOnAttributeValues(g, a)), nil
			}})
		}
	}
	fl := base.NonClassFloatAttributes(g)
	if len(fl) > 0 && rows > 1 {
		ret = append(ret, &job{"cluster", true, func() (string, error) {
			m, err := clustering.DBSCAN(g, clustering.DBSCANParameters{
				ClusterParameters: clustering.ClusterParameters{Attributes: fl, Metric: pairwise.NewEuclidean()},
				Eps:               1, MinCount: 2})
			return fmt.Sprint(m), err
		}}, &job{"convert", true, func() (string, error) {
			m, err := base.ConvertAllRowsToMat64(fl, g)
			s := ""
			for _, x := range m {
				s += fmt.Sprint(x.RawMatrix().Data)
			}
			return s, err
		}})
	}
	return ret
}

func sortedCounts(m map[string]int) []string {
	var r []string
	for k, v := range m {
		r = append(r, fmt.Sprint(k, "=", v))
	}
	sort.Strings(r)
	return r
}

func parts(m map[string]base.FixedDataGrid) string {
	var keys, r []string
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys) // (the order of reading is part of the schedule)
	for _, k := range keys {
		r = append(r, k+"="+snapOf(m[k]).text())
	}
	return strings.Join(r, "\n")
}

// text renders a table.
func (tb *table) text() string {
	var b strings.Builder
	for _, c := range tb.cols {
		fmt.Fprint(&b, c.name, c.class, "|")
	}
	for _, r := range tb.rows {
		b.WriteString("\n" + showRow(r))
	}
	return b.String()
}

func runB05(t *T) {
	var jobs []*job
	switch t.D(4) {
	case 0: // readers of any dataset
		v := t.genView(t.anyTable(gopt{minCols: 1, maxCols: 4, minRows: 0, maxRows: 8, floats: t.D(2), prec: -1}), t.D(3), viewOpt{})
		if t.P(1, 4) {
			v = t.genView(gopt{minCols: 1, maxCols: 4, minRows: 1, maxRows: 8, floats: t.D(2), prec: -1, classKind: kCat, minCls: 2, maxCls: 3}, t.D(2), viewOpt{keepClass: true})
		}
		t.Descf("readers of a %s (%s)", v.kind, strings.Join(v.desc, "; "))
		jobs = t.readJobs(v.g, false)
	default:
		f := t.trained(allKinds...)
		if f == nil {
			return
		}
		m := f.m
		// data the tasks ask about, sometimes sharing its attributes with the
		// training data, sometimes unknown to it
		var tests []base.FixedDataGrid
		for i, n := 0, 1+t.D(2); i < n; i++ {
			switch t.D(3) {
			case 0:
				tests = append(tests, f.tg.g)
			case 1:
				_, r := f.tg.g.Size()
				p := t.perm(r)
				p = p[:1+t.D(len(p))]
				tests = append(tests, base.NewInstancesViewFromVisible(f.tg.g, p, f.tg.g.AllAttributes()))
			default:
				tests = append(tests, t.root(t.moreRows(f.train, m.o, 1+t.D(6)), false).g)
			}
		}
		ask := func(l *learner, i int) func() (string, error) {
			return func() (string, error) {
				a, err := l.predict(tests[i])
				return strings.Join(a, ";"), err
			}
		}
		w := t.D(4) // what the tasks do besides predicting
		for i := range tests {
			jobs = append(jobs, &job{"predict " + m.kind, true, ask(f.l, i)})
		}
		if w&1 == 1 {
			rj := t.readJobs(f.tg.g, false)
			for i := 0; i < 3; i++ {
				jobs = append(jobs, rj[t.D(len(rj))])
			}
			rj = t.readJobs(tests[0], false)
			jobs = append(jobs, rj[t.D(len(rj))])
		}
		// pruning shuffles the training data in place, which is no reading
		if w&2 == 2 && !strings.Contains(m.conf, "prune 0.") {
			n := 1 + t.D(2)
			for i := 0; i < n; i++ {
				jobs = append(jobs, &job{"train " + m.kind, m.det, func() (string, error) {
					l := m.nw()
					if err := l.fit(f.tg.g); err != nil {
						return "", err
					}
					a, err := l.predict(tests[0])
					return strings.Join(a, ";"), err
				}})
			}
		}
	}
	nt := 2 + t.D(3)
	plan := make([][]int, nt)
	res := make([][]jobRes, nt)
	for k := range plan {
		for i, n := 0, 1+t.D(2); i < n; i++ {
			plan[k] = append(plan[k], t.D(len(jobs)))
		}
		res[k] = make([]jobRes, len(plan[k]))
		var s []string
		for _, j := range plan[k] {
			s = append(s, fmt.Sprintf("%s #%d", jobs[j].name, j))
		}
		t.Descf("task %d: %s", k, strings.Join(s, ", "))
	}
	alone := make([]jobRes, len(jobs))
	first := t.P(1, 2)
	runAlone := func() {
		for i, j := range jobs {
			if j.det {
				alone[i] = j.run(t)
			}
		}
	}
	if first {
		runAlone()
	}
	t.Descf("processors %d", t.sched(true))
	var fs []func()
	for k := range plan {
		k := k
		fs = append(fs, func() {
			for i, j := range plan[k] {
				res[k][i] = jobs[j].run(t)
			}
		})
	}
	t.Tasks(fs...)
	t.Nontrivial()
	if !first {
		runAlone()
	}
	for k := range plan {
		for i, ji := range plan[k] {
			j, got, want := jobs[ji], res[k][i], alone[ji]
			if got.pi != nil && (!j.det || want.pi == nil) {
				t.Fail("panics:"+j.name+"@"+got.pi.Where, "%s panicked while other tasks ran: %v", j.name, got.pi)
			}
			if !j.det || want.pi != nil {
				continue
			}
			if (got.err == nil) != (want.err == nil) {
				t.Fail("result-differs:"+j.name, "%s: error %v alone, %v while other tasks ran", j.name, want.err, got.err)
			}
			if want.err == nil && got.s != want.s {
				t.Fail("result-differs:"+j.name, "%s: %q alone, %q while other tasks ran", j.name, want.s, got.s)
			}
		}
	}
}
