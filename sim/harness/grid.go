package main

import (
	"github.com/sjwhitworth/golearn/base"
)

// simGrid is a caller-supplied dataset: it delivers rows in an order drawn by
// the simulator, from row memory that is reused and poisoned between rows, and
// fails part-way through an iteration where the plan says so.
type simGrid struct {
	base.FixedDataGrid
	t      *T
	order  []int // delivery order, nil: as the source
	reuse  bool
	passes int
	failAt int // iteration pass that fails (from 0), -1 never
	failAf int // after this many rows
	fired  bool
	gets   int
}

func (t *T) newSimGrid(g base.FixedDataGrid) *simGrid {
	return &simGrid{FixedDataGrid: g, t: t, failAt: -1}
}

func (s *simGrid) MapOverRows(as []base.AttributeSpec, f func([][]byte, int) (bool, error)) error {
	pass := s.passes
	s.passes++
	fail := -1
	if pass == s.failAt {
		fail = s.failAf
	}
	_, n := s.FixedDataGrid.Size()
	var bufs [][]byte
	done := 0
	for i := 0; i < n; i++ {
		if done == fail {
			s.fired = true
			s.t.Fault("dataset-read-error")
			return errInjected
		}
		r := i
		if s.order != nil {
			r = s.order[i]
		}
		var row [][]byte
		if s.reuse {
			if bufs == nil {
				bufs = make([][]byte, len(as))
			}
			for j := range as {
				v := s.FixedDataGrid.Get(as[j], r)
				if len(bufs[j]) != len(v) {
					bufs[j] = make([]byte, len(v))
				}
				copy(bufs[j], v)
			}
			row = bufs
		} else {
			row = make([][]byte, len(as))
			for j := range as {
				row[j] = s.FixedDataGrid.Get(as[j], r)
			}
		}
		ok, err := f(row, r)
		if s.reuse {
			// the memory of a delivered row belongs to the dataset; 0x01
			// reads as a tiny number and, in one bit, as true
			for j := range bufs {
				for k := range bufs[j] {
					bufs[j][k] = 0
				}
			}
		}
		done++
		if err != nil {
			return err
		}
		if !ok {
			return nil
		}
	}
	if done == fail {
		s.fired = true
		s.t.Fault("dataset-read-error")
		return errInjected
	}
	return nil
}
