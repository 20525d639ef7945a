package sim

import (
	"encoding/json"
	"errors"
	"testing"

	"github.com/aws/go-kafka-event-source/streams/sak"
)

// The kind "funcs" calls the small functions of package sak.

func init() { runners["funcs"] = runFuncs }

type funcsScn struct {
	Nums [][]int
	Maps [][][]int
}

func conv[T sak.Number](in []int) []T {
	r := make([]T, len(in))
	for i, v := range in {
		r[i] = T(v)
	}
	return r
}

func minMax[T sak.Number](in []int, x E) {
	a := conv[T](in)
	x["minn"] = append(x["minn"].([]int), int(sak.MinN(a...)))
	x["maxn"] = append(x["maxn"].([]int), int(sak.MaxN(a...)))
	if len(a) >= 2 {
		x["min"] = append(x["min"].([]int), int(sak.Min(a[0], a[1])))
		x["max"] = append(x["max"].([]int), int(sak.Max(a[0], a[1])))
	}
}

func runFuncs(t *testing.T, raw json.RawMessage, tr *Trace) {
	s := &funcsScn{}
	if err := json.Unmarshal(raw, s); err != nil {
		Die("scenario: %v", err)
	}
	tr.Log(E{"ev": "cfg", "kind": "funcs"})
	for _, in := range s.Nums {
		x := E{"ev": "nums", "in": in, "minn": []int{}, "maxn": []int{}, "min": []int{}, "max": []int{}, "abs": []int{}}
		minMax[int](in, x)
		minMax[int64](in, x)
		minMax[int16](in, x)
		minMax[float64](in, x)
		pos := true
		for _, v := range in {
			pos = pos && v >= 0
		}
		if pos {
			minMax[uint](in, x)
			minMax[uint64](in, x)
			minMax[uint16](in, x)
		}
		if len(in) > 0 {
			x["abs"] = []int{sak.Abs(in[0]), int(sak.Abs(int64(in[0]))), int(sak.Abs(int32(in[0]))), int(sak.Abs(float64(in[0])))}
		}
		tr.Log(x)
		p := sak.ToPtrSlice(in)
		out := []int{}
		for _, v := range p {
			out = append(out, *v)
		}
		back := sak.ToStructSlice(p)
		was := append([]int{}, in...)
		for _, v := range p {
			*v += 1000
		}
		kept := true
		for i := range was {
			kept = kept && in[i] == was[i] && back[i] == was[i] && *p[i] == was[i]+1000
		}
		tr.Log(E{"ev": "slice", "in": was, "out": out, "back": append([]int{}, back...), "kept": b2i(kept)})
		for i, v := range in {
			var err error
			if i%2 == 1 {
				err = errors.New("no")
			}
			got := -1
			func() {
				defer func() { recover() }()
				got = *sak.Ptr(sak.Must(v, err))
			}()
			tr.Log(E{"ev": "must", "v": v, "err": i % 2, "got": got})
		}
	}
	for _, in := range s.Maps {
		m := map[int]int{}
		for _, kv := range in {
			m[kv[0]] = kv[1]
		}
		c := sak.MapCopy(m)
		keys, vals, list := sak.MapKeysToSlice(m), sak.MapValuesToSlice(m), [][]int{}
		for k, v := range c {
			list = append(list, []int{k, v})
		}
		n := len(m)
		c[-1] = 7
		kept := len(m) == n
		delete(c, -1)
		m[-2] = 8
		_, there := c[-2]
		tr.Log(E{"ev": "map", "in": in, "copy": list, "keys": append([]int{}, keys...), "vals": append([]int{}, vals...), "kept": b2i(kept && !there)})
	}
	tr.Log(E{"ev": "quiet"})
}
