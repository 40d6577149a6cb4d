// Package verifsim is compiled into simulated builds only (overlay). It makes
// the order in which the library walks a map a draw of the simulator.
package verifsim

import (
	"reflect"
	"runtime"
	"sort"
	"unsafe"
)

const mapStream = 3

// MapRanges counts map iterations with more than one key, Permuted those that
// were not walked in canonical order.
var MapRanges, Permuted uint64

// NoPermute switches permutation off (keys are then walked in canonical order).
var NoPermute bool

type It[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
}

func mk[K comparable, V any](m map[K]V) *It[K, V] {
	it := &It[K, V]{m: m}
	if len(m) == 0 {
		return it
	}
	it.keys = make([]K, 0, len(m))
	for k := range m {
		it.keys = append(it.keys, k)
	}
	if len(it.keys) < 2 || !runtime.VerifActive() {
		return it
	}
	order(it.keys)
	return it
}

func Start0[K comparable, V any](m map[K]V) *It[K, V] { return mk(m) }
func StartK[K comparable, V any](m map[K]V) (it *It[K, V], k K) {
	return mk(m), k
}
func StartV[K comparable, V any](m map[K]V) (it *It[K, V], v V) {
	return mk(m), v
}
func StartKV[K comparable, V any](m map[K]V) (it *It[K, V], k K, v V) {
	return mk(m), k, v
}

func (it *It[K, V]) Next(k *K, v *V) bool {
	for it.i < len(it.keys) {
		key := it.keys[it.i]
		it.i++
		val, ok := it.m[key]
		if !ok {
			if key == key { // deleted meanwhile (NaN keys are never found)
				continue
			}
		}
		if k != nil {
			*k = key
		}
		if v != nil {
			*v = val
		}
		return true
	}
	return false
}

func order[K comparable](keys []K) {
	switch ks := any(keys).(type) {
	case []string:
		sort.Strings(ks)
	case []int:
		sort.Ints(ks)
	case []float64:
		sort.Float64s(ks)
	default:
		type kk struct {
			s string
			k K
		}
		t := make([]kk, len(keys))
		for i := range keys {
			k := new(K)
			*k = keys[i]
			t[i] = kk{string(raw(nil, reflect.TypeOf(k).Elem(), unsafe.Pointer(k), 0)), keys[i]}
		}
		sort.SliceStable(t, func(i, j int) bool { return t[i].s < t[j].s })
		for i := range t {
			keys[i] = t[i].k
		}
	}
	count()
	if NoPermute {
		return
	}
	s := uint64(runtime.VerifDraw(mapStream, 1<<16))
	if s == 0 {
		return
	}
	countP()
	s *= 0x9e3779b97f4a7c15
	for i := len(keys) - 1; i > 0; i-- {
		s ^= s << 13
		s ^= s >> 7
		s ^= s << 17
		j := int(s % uint64(i+1))
		keys[i], keys[j] = keys[j], keys[i]
	}
}

//go:norace
func count() { MapRanges++ }

//go:norace
func countP() { Permuted++ }

type words struct{ typ, data unsafe.Pointer }

// raw renders a key and what it points to without the race detector taking
// notice: the simulator's reading is none of the library's doing.
//
//go:norace
func raw(b []byte, t reflect.Type, p unsafe.Pointer, d int) []byte {
	if d > 5 {
		return b
	}
	switch t.Kind() {
	case reflect.Bool, reflect.Int8, reflect.Uint8:
		b = num(b, uint64(*(*uint8)(p)))
	case reflect.Int16, reflect.Uint16:
		b = num(b, uint64(*(*uint16)(p)))
	case reflect.Int32, reflect.Uint32, reflect.Float32:
		b = num(b, uint64(*(*uint32)(p)))
	case reflect.Int, reflect.Uint, reflect.Int64, reflect.Uint64, reflect.Float64:
		b = num(b, *(*uint64)(p))
	case reflect.String:
		b = append(b, *(*string)(p)...)
	case reflect.Ptr:
		q := *(*unsafe.Pointer)(p)
		if q != nil {
			b = append(b, t.Elem().Name()...)
			b = append(b, ':')
			b = raw(b, t.Elem(), q, d+1)
		}
	case reflect.Interface:
		w := *(*words)(p)
		if w.typ == nil {
			return b
		}
		if t.NumMethod() > 0 {
			// an itab: the dynamic type is its second word
			w.typ = *(*unsafe.Pointer)(unsafe.Add(w.typ, unsafe.Sizeof(uintptr(0))))
		}
		var e interface{}
		(*words)(unsafe.Pointer(&e)).typ = w.typ
		dt := reflect.TypeOf(e)
		e = nil
		if dt.Kind() == reflect.Ptr {
			b = raw(b, dt, unsafe.Pointer(&w.data), d+1)
		} else {
			b = append(b, dt.Name()...)
			b = raw(b, dt, w.data, d+1)
		}
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			b = raw(b, f.Type, unsafe.Add(p, f.Offset), d+1)
			b = append(b, '|')
		}
	case reflect.Array:
		for i := 0; i < t.Len() && i < 64; i++ {
			b = raw(b, t.Elem(), unsafe.Add(p, uintptr(i)*t.Elem().Size()), d+1)
			b = append(b, ',')
		}
	case reflect.Slice:
		h := *(*struct {
			p    unsafe.Pointer
			l, c int
		})(p)
		for i := 0; i < h.l && i < 64; i++ {
			b = raw(b, t.Elem(), unsafe.Add(h.p, uintptr(i)*t.Elem().Size()), d+1)
			b = append(b, ',')
		}
	}
	return b
}

func num(b []byte, v uint64) []byte {
	var x [16]byte
	for i := range x {
		x[15-i] = "0123456789abcdef"[v&15]
		v >>= 4
	}
	return append(b, x[:]...)
}
