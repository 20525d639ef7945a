package sim

import (
	"bytes"
	"context"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math"
	"strconv"
	"sync"
	"sync/atomic"
	"testing"

	"github.com/aws/go-kafka-event-source/streams"
	"github.com/aws/go-kafka-event-source/streams/sak"
	"github.com/aws/go-kafka-event-source/streams/stores"
	"github.com/google/btree"
)

// The sequential data types: every operation and its result is one event.

func init() {
	runners["heap"] = runHeap
	runners["list"] = runList
	runners["pool"] = runPool
	runners["fork"] = runFork
	runners["store"] = runStore
	runners["codec"] = runCodec
}

type dOp struct {
	Op      string
	A, B, C int
	L       []int
	S       string
}

type dScn struct {
	Kind, ID string
	N        int
	Flag     int
	Ops      []dOp
	Threads  [][]dOp
	Burst    int
}

func readData(raw json.RawMessage) (s dScn) {
	if err := json.Unmarshal(raw, &s); err != nil {
		Die("%v", err)
	}
	return
}

// ---------------------------------------------------------------- heap

type hv struct{ id, pr int }

func (h *hv) HasPriorityOver(o *hv) bool { return h.pr < o.pr }

func runHeap(t *testing.T, raw json.RawMessage, tr *Trace) {
	s := readData(raw)
	tr.Log(E{"ev": "cfg", "kind": "heap"})
	type item = stores.PrioritizedItem[*hv]
	var h *stores.MinMaxHeap[*hv]
	handles := map[int]*item{}
	gone := map[int]bool{}
	id := 0
	see := func(it *item) int {
		if it == nil {
			return -1
		}
		handles[it.Value.id] = it
		return it.Value.id
	}
	pick := func(n int) (int, *item) { // the n-th known item which is in the heap
		c := []int{}
		for i := 0; i < id; i++ {
			if handles[i] != nil && !gone[i] {
				c = append(c, i)
			}
		}
		if len(c) == 0 {
			return -1, nil
		}
		k := c[n%len(c)]
		return k, handles[k]
	}
	for _, op := range s.Ops {
		switch op.Op {
		case "new":
			id, handles, gone = 0, map[int]*item{}, map[int]bool{}
			vals := []*hv{}
			for _, p := range op.L {
				vals = append(vals, &hv{id, p})
				id++
			}
			h = stores.NewMinMaxHeap(vals...)
			l := op.L
			if l == nil {
				l = []int{}
			}
			tr.Log(E{"ev": "new", "prs": l})
		case "push":
			it := &item{Value: &hv{id, op.A}}
			handles[id] = it
			h.Push(it)
			tr.Log(E{"ev": "push", "id": id, "pr": op.A})
			id++
		case "repush": // an item which has been taken out is pushed again
			for i := 0; i < id; i++ {
				if gone[i] && handles[i] != nil {
					handles[i].Value.pr = op.A
					gone[i] = false
					h.Push(handles[i])
					tr.Log(E{"ev": "push", "id": i, "pr": op.A})
					break
				}
			}
		case "min":
			tr.Log(E{"ev": "min", "id": see(h.Min())})
		case "max":
			tr.Log(E{"ev": "max", "id": see(h.Max())})
		case "popmin":
			k := see(h.PopMin())
			gone[k] = true
			tr.Log(E{"ev": "popmin", "id": k})
		case "popmax":
			k := see(h.PopMax())
			gone[k] = true
			tr.Log(E{"ev": "popmax", "id": k})
		case "len":
			tr.Log(E{"ev": "len", "n": h.Len()})
		case "remove":
			if k, it := pick(op.A); it != nil {
				gone[k] = true
				h.Remove(it)
				tr.Log(E{"ev": "remove", "id": k})
			}
		case "update":
			if k, it := pick(op.A); it != nil {
				it.Value.pr = op.B
				h.Update(it)
				tr.Log(E{"ev": "update", "id": k, "pr": op.B})
			}
		case "drain":
			for n := 0; ; n++ {
				var k int
				if op.A == 0 || op.A == 2 && n%2 == 0 {
					k = see(h.PopMin())
					tr.Log(E{"ev": "popmin", "id": k})
				} else {
					k = see(h.PopMax())
					tr.Log(E{"ev": "popmax", "id": k})
				}
				gone[k] = true
				if k == -1 {
					break
				}
			}
		}
	}
	tr.Log(E{"ev": "quiet"})
}

// ---------------------------------------------------------------- list

func runList(t *testing.T, raw json.RawMessage, tr *Trace) {
	s := readData(raw)
	tr.Log(E{"ev": "cfg", "kind": "list"})
	type elem = sak.Element[int]
	var ls [2]*sak.List[int]
	var els []*elem
	ids := map[*elem]int{}
	id := func(e *elem) int {
		if e == nil {
			return -1
		}
		if i, ok := ids[e]; ok {
			return i
		}
		ids[e] = len(els)
		els = append(els, e)
		return len(els) - 1
	}
	look := func(ev E) {
		for k, l := range ls {
			fw, bw := [][]int{}, []int{}
			for e, n := l.Front(), 0; e != nil && n < 500; e, n = e.Next(), n+1 {
				fw = append(fw, []int{id(e), e.Value})
			}
			for e, n := l.Back(), 0; e != nil && n < 500; e, n = e.Prev(), n+1 {
				bw = append(bw, id(e))
			}
			ev[fmt.Sprintf("f%d", k)] = fw
			ev[fmt.Sprintf("b%d", k)] = bw
			ev[fmt.Sprintf("n%d", k)] = l.Len()
		}
		tr.Log(ev)
	}
	for _, op := range s.Ops {
		if op.Op == "new" {
			els, ids = nil, map[*elem]int{}
			for k := range ls {
				if op.A&(1<<k) != 0 {
					ls[k] = &sak.List[int]{} // the zero list is ready to use
				} else {
					ls[k] = sak.NewList[int]()
				}
			}
			look(E{"ev": "new"})
			continue
		}
		l := ls[op.A]
		var e, m *elem
		ei, mi := -1, -1
		if op.Op == "pushf" || op.Op == "pushb" || op.Op == "pushbl" || op.Op == "pushfl" {
		} else {
			if len(els) == 0 {
				continue
			}
			ei, mi = op.B%len(els), op.C%len(els)
			e, m = els[ei], els[mi]
		}
		ev := E{"ev": op.Op, "l": op.A, "e": ei, "m": mi, "v": op.C, "r": -1, "rv": 0}
		switch op.Op {
		case "pushf":
			ev["r"] = id(l.PushFront(op.C))
		case "pushb":
			ev["r"] = id(l.PushBack(op.C))
		case "insb":
			ev["r"] = id(l.InsertBefore(op.C, e))
		case "insa":
			ev["r"] = id(l.InsertAfter(op.C, e))
		case "remove":
			ev["rv"] = l.Remove(e)
		case "movef":
			l.MoveToFront(e)
		case "moveb":
			l.MoveToBack(e)
		case "movebef":
			l.MoveBefore(e, m)
		case "moveaft":
			l.MoveAfter(e, m)
		case "pushbl":
			l.PushBackList(ls[op.B])
			ev["e"] = op.B
		case "pushfl":
			l.PushFrontList(ls[op.B])
			ev["e"] = op.B
		default:
			Die("list op %q", op.Op)
		}
		look(ev)
	}
	tr.Log(E{"ev": "quiet"})
}

// ---------------------------------------------------------------- pool

type pv struct{ id, dirty int }

func runPool(t *testing.T, raw json.RawMessage, tr *Trace) {
	s := readData(raw)
	tr.Log(E{"ev": "cfg", "kind": "pool", "n": s.N, "reset": s.Flag, "single": b2i(len(s.Threads) == 1)})
	var mu sync.Mutex
	next := 0
	mk := func() *pv { mu.Lock(); defer mu.Unlock(); next++; return &pv{id: next} }
	var reset func(*pv) *pv
	if s.Flag > 0 {
		reset = func(v *pv) *pv {
			if s.Flag == 2 && v.id%2 == 0 { // the resetter may replace the item
				w := mk()
				tr.Log(E{"ev": "reset", "id": v.id, "to": w.id})
				return w
			}
			v.dirty = 0
			tr.Log(E{"ev": "reset", "id": v.id, "to": v.id})
			return v
		}
	}
	p := sak.NewPool(s.N, func() *pv { v := mk(); tr.Log(E{"ev": "made", "id": v.id}); return v }, reset)
	var wg sync.WaitGroup
	for ti, ops := range s.Threads {
		wg.Add(1)
		go func() {
			defer wg.Done()
			held := []*pv{}
			for _, op := range ops {
				switch {
				case op.Op == "borrow" || len(held) == 0:
					v := p.Borrow()
					if v == nil {
						tr.Log(E{"ev": "borrow", "id": 0, "dirty": 0, "th": ti})
						continue
					}
					tr.Log(E{"ev": "borrow", "id": v.id, "dirty": v.dirty, "th": ti})
					v.dirty = 1
					held = append(held, v)
				default:
					k := op.A % len(held)
					v := held[k]
					held = append(held[:k], held[k+1:]...)
					tr.Log(E{"ev": "release", "id": v.id, "th": ti})
					ok := p.Release(v)
					tr.Log(E{"ev": "released", "id": v.id, "ok": b2i(ok), "th": ti})
				}
				spin(op.B)
			}
		}()
	}
	wg.Wait()
	if s.Burst > 0 { // many at once: only what goes wrong is recorded
		type it struct {
			used  atomic.Int32
			dirty atomic.Int32
		}
		var none, twice, dirty atomic.Int64
		q := sak.NewPool(s.N, func() *it { return &it{} }, func(v *it) *it { v.dirty.Store(0); return v })
		for i := 0; i < 8; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < s.Burst; k++ {
					var l []*it
					for n := 0; n < 1+(i+k)%3; n++ {
						v := q.Borrow()
						if v == nil {
							none.Add(1)
							continue
						}
						if !v.used.CompareAndSwap(0, 1) {
							twice.Add(1)
						}
						if v.dirty.Swap(1) != 0 {
							dirty.Add(1)
						}
						l = append(l, v)
					}
					for _, v := range l {
						v.used.Store(0)
						q.Release(v)
					}
				}
			}()
		}
		wg.Wait()
		tr.Log(E{"ev": "burst", "none": min(none.Load(), 1000), "twice": min(twice.Load(), 1000), "dirty": min(dirty.Load(), 1000)})
	}
	tr.Log(E{"ev": "quiet"})
}

// ---------------------------------------------------------------- fork: RunStatus

type ctxKey int

func runFork(t *testing.T, raw json.RawMessage, tr *Trace) {
	s := readData(raw)
	tr.Log(E{"ev": "cfg", "kind": "fork"})
	var nodes []sak.RunStatus
	var cancel []context.CancelFunc
	look := func(ev E) {
		st, vals := [][]int{}, [][]int{}
		for _, n := range nodes {
			done := 0
			select {
			case <-n.Done():
				done = 1
			default:
			}
			cd := 0
			select {
			case <-n.Ctx().Done():
				cd = 1
			default:
			}
			st = append(st, []int{b2i(n.Running()), done, b2i(n.Err() != nil), cd})
			vs := []int{}
			for k := 0; k < 3; k++ {
				v := -1
				if x, ok := n.Ctx().Value(ctxKey(k)).(int); ok {
					v = x
				}
				vs = append(vs, v)
			}
			vals = append(vals, vs)
		}
		ev["st"], ev["vals"] = st, vals
		tr.Log(ev)
	}
	for _, op := range s.Ops {
		switch op.Op {
		case "reset":
			nodes, cancel = nil, nil
			tr.Log(E{"ev": "reset"})
		case "root": // A: 0 nil parent, 1 cancellable parent
			if op.A == 0 {
				nodes = append(nodes, sak.NewRunStatus(nil))
				cancel = append(cancel, nil)
			} else {
				ctx, c := context.WithCancel(context.WithValue(context.Background(), ctxKey(0), op.B))
				nodes = append(nodes, sak.NewRunStatus(ctx))
				cancel = append(cancel, c)
			}
			look(E{"ev": "root", "a": op.A, "v": op.B})
		case "fork":
			if len(nodes) > 0 {
				p := op.A % len(nodes)
				nodes, cancel = append(nodes, nodes[p].Fork()), append(cancel, nil)
				look(E{"ev": "fork", "p": p})
			}
		case "with":
			if len(nodes) > 0 {
				p := op.A % len(nodes)
				nodes, cancel = append(nodes, nodes[p].WithValue(ctxKey(op.B), op.C)), append(cancel, nil)
				look(E{"ev": "with", "p": p, "k": op.B, "v": op.C})
			}
		case "halt":
			if len(nodes) > 0 {
				p := op.A % len(nodes)
				nodes[p].Halt()
				look(E{"ev": "halt", "p": p})
			}
		case "cancel":
			if len(nodes) > 0 {
				if p := op.A % len(nodes); cancel[p] != nil {
					cancel[p]()
					look(E{"ev": "cancel", "p": p})
				}
			}
		}
	}
	tr.Log(E{"ev": "quiet"})
}

// ---------------------------------------------------------------- store: SimpleStore, ShardedTree, TopicPartitionSet

type kval struct {
	K string
	V int
}

func (k kval) Key() string { return k.K }

// kvCodec is another codec than JSON.
type kvCodec struct{}

func (kvCodec) Encode(b *bytes.Buffer, v kval) error {
	fmt.Fprintf(b, "%d|%s", v.V, v.K)
	return nil
}
func (kvCodec) Decode(b []byte) (v kval, err error) {
	i := bytes.IndexByte(b, '|')
	if i < 0 {
		return v, fmt.Errorf("malformed")
	}
	v.V, err = strconv.Atoi(string(b[:i]))
	v.K = string(b[i+1:])
	return
}

type tval struct{ k, v int }

func keyName(k int) string {
	names := []string{"", "a", "aa", "b", "k-1", "k\"q\\", "é", "z"}
	return names[k%len(names)]
}

func runStore(t *testing.T, raw json.RawMessage, tr *Trace) {
	s := readData(raw)
	tr.Log(E{"ev": "cfg", "kind": "store", "exp": s.N})
	const nk = 8
	var ss [2]*stores.SimpleStore[kval]
	for i := range ss {
		tp := streams.TopicPartition{Topic: "t", Partition: int32(i)}
		if s.Flag == 0 {
			ss[i] = stores.NewJsonSimpleStore[kval](tp)
		} else {
			ss[i] = stores.NewSimpleStore[kval](tp, kvCodec{})
		}
	}
	type ent struct{ k, v []byte }
	logs := [2][]ent{}
	keep := func(i int, c streams.ChangeLogEntry) {
		logs[i] = append(logs[i], ent{append([]byte(nil), c.KeyWriter().Bytes()...), append([]byte(nil), c.ValueWriter().Bytes()...)})
	}
	content := func(ev E) {
		for i := range ss {
			c := []int{}
			for k := 0; k < nk; k++ {
				v, ok := ss[i].Get(keyName(k))
				x := -1
				if ok {
					x = v.V
					if v.K != keyName(k) {
						x = -2
					}
				}
				c = append(c, x)
			}
			ev[fmt.Sprintf("c%d", i)] = c
		}
		tr.Log(ev)
	}
	mod := 2 << s.N
	var st stores.ShardedTree[int, tval]
	st = stores.NewShardedTree[int, tval](s.N, func(k int) uint64 { return uint64(k) * 7 }, func(a, b tval) bool { return a.k < b.k })
	trees := map[*btree.BTreeG[tval]]int{}
	tid := func(k int) int {
		x := st.For(k)
		if _, ok := trees[x]; !ok {
			trees[x] = len(trees)
		}
		return trees[x]
	}
	sets := []streams.TopicPartitionSet{streams.NewTopicPartitionSet(), streams.NewTopicPartitionSet()}
	parts := []int32{-1, 0, 1, 2, 3, 7, math.MaxInt32, math.MinInt32, math.MaxInt32 - 1}
	topics := []string{"", "a", "ab", "b"}
	tpos := func(x streams.TopicPartition) []int {
		ti := -1
		for i, n := range topics {
			if n == x.Topic {
				ti = i
			}
		}
		return []int{int(x.Partition), ti}
	}
	for _, op := range s.Ops {
		switch op.Op {
		case "put":
			c := ss[op.A].Put(kval{keyName(op.B), op.C})
			keep(op.A, c)
			content(E{"ev": "put", "s": op.A, "k": op.B % nk, "v": op.C, "ek": b2i(c.KeyWriter().String() == keyName(op.B)), "del": b2i(c.ValueWriter().Len() == 0)})
		case "tocle": // does not change the store
			c := ss[op.A].ToChangeLogEntry(kval{keyName(op.B), op.C})
			content(E{"ev": "tocle", "s": op.A, "k": op.B % nk, "v": op.C, "ek": b2i(c.KeyWriter().String() == keyName(op.B)), "del": b2i(c.ValueWriter().Len() == 0)})
			if op.L != nil { // the entry is recorded nevertheless, as an event handler might do which changes the store itself
				keep(op.A, c)
			}
		case "del":
			c, ok := ss[op.A].Delete(kval{keyName(op.B), 0})
			ek, del := 1, 1
			if ok {
				keep(op.A, c)
				ek, del = b2i(c.KeyWriter().String() == keyName(op.B)), b2i(c.ValueWriter().Len() == 0)
			}
			content(E{"ev": "del", "s": op.A, "k": op.B % nk, "ok": b2i(ok), "ek": ek, "del": del})
		case "replay": // replays what was recorded by store A into a new store in place of B
			tp := streams.TopicPartition{Topic: "t", Partition: int32(op.B)}
			if s.Flag == 0 {
				ss[op.B] = stores.NewJsonSimpleStore[kval](tp)
			} else {
				ss[op.B] = stores.NewSimpleStore[kval](tp, kvCodec{})
			}
			bad := 0
			for _, e := range logs[op.A] {
				if err := ss[op.B].ReceiveChange(streams.NewRecord().WithKey(e.k).WithValue(e.v).AsIncomingRecord()); err != nil {
					bad = 1
				}
			}
			if op.A != op.B {
				logs[op.B] = append([]ent(nil), logs[op.A]...)
			}
			content(E{"ev": "replay", "from": op.A, "to": op.B, "bad": bad})
		case "recv": // a change which was recorded by somebody else
			var b bytes.Buffer
			item := kval{keyName(op.B), op.C}
			if op.S == "bad" {
				b.WriteString("{\"K\":")
			} else if op.S != "del" {
				if s.Flag == 0 {
					json.NewEncoder(&b).Encode(item)
				} else {
					kvCodec{}.Encode(&b, item)
				}
			}
			kb := []byte(keyName(op.B))
			vb := append([]byte(nil), b.Bytes()...)
			err := ss[op.A].ReceiveChange(streams.NewRecord().WithKey(kb).WithValue(vb).AsIncomingRecord())
			if op.S != "bad" {
				logs[op.A] = append(logs[op.A], ent{kb, vb})
			}
			kind := op.S
			if kind == "" {
				kind = "put"
			}
			content(E{"ev": "recv", "s": op.A, "k": op.B % nk, "v": op.C, "w": kind, "err": b2i(err != nil)})
		case "tput":
			x := st.For(op.B)
			old, had := x.ReplaceOrInsert(tval{op.B, op.C})
			o := -1
			if had {
				o = old.v
			}
			tr.Log(E{"ev": "tput", "k": op.B, "v": op.C, "old": o, "tree": tid(op.B), "h": op.B * 7 % mod, "len": st.Len()})
		case "tdel":
			old, had := st.For(op.B).Delete(tval{k: op.B})
			o := -1
			if had {
				o = old.v
			}
			tr.Log(E{"ev": "tdel", "k": op.B, "old": o, "tree": tid(op.B), "h": op.B * 7 % mod, "len": st.Len()})
		case "tget":
			v, ok := st.For(op.B).Get(tval{k: op.B})
			o := -1
			if ok {
				o = v.v
			}
			all := [][]int{}
			st.For(op.B).Ascend(func(x tval) bool { all = append(all, []int{x.k, x.v}); return true })
			tr.Log(E{"ev": "tget", "k": op.B, "v": o, "tree": tid(op.B), "h": op.B * 7 % mod, "len": st.Len(), "all": all})
		case "hash":
			bs := []byte(keyName(op.B))
			ok := stores.StringHash(keyName(op.B)) == stores.StringHash(string(bs)) && stores.ByteHash(bs) == stores.ByteHash([]byte(keyName(op.B)))
			tr.Log(E{"ev": "hash", "same": b2i(ok), "lt": b2i(stores.StringLess(keyName(op.B), keyName(op.C))), "want": b2i(keyName(op.B) < keyName(op.C)),
				"nl": b2i(stores.NumberLess(op.B, op.C)), "x": op.B, "y": op.C})
		case "sins", "srem", "shas", "sitems":
			set := sets[op.A]
			x := streams.TopicPartition{Partition: parts[op.B%len(parts)], Topic: topics[op.C%len(topics)]}
			ok := false
			switch op.Op {
			case "sins":
				ok = set.Insert(x)
			case "srem":
				ok = set.Remove(x)
			case "shas":
				ok = set.Contains(x)
			}
			items := [][]int{}
			for _, y := range set.Items() {
				items = append(items, tpos(y))
			}
			tr.Log(E{"ev": op.Op, "s": op.A, "x": tpos(x), "ok": b2i(ok), "items": items, "len": set.Len()})
		case "snew":
			sets[op.A] = streams.NewTopicPartitionSet()
			tr.Log(E{"ev": "snew", "s": op.A})
		default:
			Die("store op %q", op.Op)
		}
	}
	tr.Log(E{"ev": "quiet"})
}

// ---------------------------------------------------------------- codec

type jv struct {
	S string
	I int64
	F float64
	B bool
	L []string
	M map[string]int
	P *jv
}

func limbs(i int64) []int { // four 16-bit digits, most significant first, in an order-preserving way
	u := uint64(i) ^ (1 << 63)
	return []int{int(u >> 48), int(u >> 32 & 0xffff), int(u >> 16 & 0xffff), int(u & 0xffff)}
}

func ints(b []byte) []int {
	r := []int{}
	for _, x := range b {
		r = append(r, int(x))
	}
	return r
}

func codecOne[T any](tr *Trace, name string, c streams.Codec[T], v T, pre string, repr func(T) any) {
	var b bytes.Buffer
	b.WriteString(pre)
	err := c.Encode(&b, v)
	all := append([]byte(nil), b.Bytes()...)
	kept := len(all) >= len(pre) && string(all[:len(pre)]) == pre
	var enc []byte
	if kept {
		enc = all[len(pre):]
	}
	var got T
	var err2 error
	if len(enc) > 0 || name == "string" || name == "byte" {
		got, err2 = c.Decode(append([]byte(nil), enc...))
	} else {
		err2 = fmt.Errorf("nothing was encoded")
	}
	tr.Log(E{"ev": "code", "codec": name, "v": repr(v), "enc": ints(enc), "kept": b2i(kept), "err": b2i(err != nil), "got": repr(got), "err2": b2i(err2 != nil)})
}

func runCodec(t *testing.T, raw json.RawMessage, tr *Trace) {
	s := readData(raw)
	tr.Log(E{"ev": "cfg", "kind": "codec"})
	num := func(x string) int64 {
		i, err := strconv.ParseInt(x, 10, 64)
		if err != nil {
			Die("%v", err)
		}
		return i
	}
	hexs := func(x string) any { return hex.EncodeToString([]byte(x)) }
	rep := func(v jv) any {
		var f func(v *jv) string
		f = func(v *jv) string {
			if v == nil {
				return "nil"
			}
			m := ""
			for i := 0; i < 6; i++ {
				if x, ok := v.M[fmt.Sprint("m", i)]; ok {
					m += fmt.Sprint(i, ":", x, ",")
				}
			}
			return fmt.Sprintf("%q %d %x %v %q %d{%s} %s", v.S, v.I, math.Float64bits(v.F), v.B, v.L, len(v.M), m, f(v.P))
		}
		return hexs(f(&v))
	}
	mkj := func(op dOp) jv {
		var x jv
		x.S, x.I, x.B = op.S, int64(op.A)<<uint(op.B%60), op.C%2 == 0
		x.F = float64(op.A) / float64(op.B%97+1)
		for i := 0; i < op.C%4; i++ {
			x.L = append(x.L, fmt.Sprint(op.S, i))
			if x.M == nil {
				x.M = map[string]int{}
			}
			x.M[fmt.Sprint("m", i)] = op.A + i
		}
		if op.C%3 == 0 {
			y := x
			x.P = &y
		}
		return x
	}
	str := func(op dOp) string {
		b := []byte{}
		for _, x := range op.L {
			b = append(b, byte(x))
		}
		return string(b)
	}
	for _, op := range s.Ops {
		pre := ""
		for i := 0; i < op.C%3; i++ {
			pre += "\x01pre"
		}
		switch op.Op {
		case "lexo":
			codecOne[int64](tr, "lexo", streams.LexoInt64Codec, num(op.S), pre, func(v int64) any { return limbs(v) })
		case "lexobad":
			_, err := streams.LexoInt64Codec.Decode(make([]byte, op.A))
			tr.Log(E{"ev": "lexobad", "n": op.A, "err": b2i(err != nil), "size": streams.LexInt64Size})
		case "int":
			codecOne[int](tr, "int", streams.IntCodec, int(num(op.S)), pre, func(v int) any { return limbs(int64(v)) })
		case "int64":
			codecOne[int64](tr, "int64", streams.Int64Codec, num(op.S), pre, func(v int64) any { return limbs(v) })
		case "int32":
			codecOne[int32](tr, "int32", streams.Int32Codec, int32(num(op.S)), pre, func(v int32) any { return limbs(int64(v)) })
		case "string":
			codecOne[string](tr, "string", streams.StringCodec, str(op), pre, func(v string) any { return hexs(v) })
		case "byte":
			codecOne[[]byte](tr, "byte", streams.ByteCodec, []byte(str(op)), pre, func(v []byte) any { return hexs(string(v)) })
		case "json":
			codecOne[jv](tr, "json", streams.JsonCodec[jv]{}, mkj(op), pre, rep)
		case "jsonbad": // malformed input
			_, err := streams.JsonCodec[jv]{}.Decode([]byte(op.S))
			tr.Log(E{"ev": "jsonbad", "err": b2i(err != nil)})
		case "jsonrec": // through a record
			v := mkj(op)
			r := streams.JsonItemEncoder("ty", v)
			r.WriteKeyString("kk")
			in := r.AsIncomingRecord()
			got, err := streams.JsonItemDecoder[jv](in)
			tr.Log(E{"ev": "jsonrec", "v": rep(v), "got": rep(got), "err": b2i(err != nil), "type": b2i(in.RecordType() == "ty"), "key": b2i(string(in.Key()) == "kk")})
			r.Release()
		case "jsoncle": // through a change log entry
			v := mkj(op)
			c := streams.EncodeJsonChangeLogEntryValue("ty", v)
			if op.A%2 == 0 {
				var err error
				if c, err = streams.CreateJsonChangeLogEntry(v); err != nil {
					tr.Log(E{"ev": "jsonrec", "v": rep(v), "got": rep(jv{}), "err": 1, "type": 1, "key": 1})
					continue
				}
			}
			c = c.WithKeyString("kk")
			got, err := streams.JsonCodec[jv]{}.Decode(append([]byte(nil), c.ValueWriter().Bytes()...))
			tr.Log(E{"ev": "jsonrec", "v": rep(v), "got": rep(got), "err": b2i(err != nil), "type": 1, "key": b2i(c.KeyWriter().String() == "kk")})
		default:
			Die("codec op %q", op.Op)
		}
	}
	tr.Log(E{"ev": "quiet"})
}
