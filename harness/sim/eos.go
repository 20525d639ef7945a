package sim

import (
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/aws/go-kafka-event-source/streams"
	"github.com/twmb/franz-go/pkg/kgo"
	"github.com/twmb/franz-go/pkg/kmsg"

	"verif/harness/broker"
)

// The kind "eos" runs one or more EventSources against the stand-in cluster and follows a script.

const (
	srcTopic    = "src"
	groupID     = "grp"
	outTopic    = "out"
	sideTopic   = "side"
	commitTopic = "gkes_commit_log_grp"
	changeTopic = "gkes_change_log_src_grp"
)

type eosScn struct {
	Kind, ID        string
	Seed            int64
	Parts           int
	Brokers         int
	CommitParts     int
	Pool, Pending   int
	Target, Max     int
	DelayMs         int
	CbMs            []int
	OutParts        int
	Keys            int
	CommitOffsets   bool
	LatMin, LatMax  int // broker latency per request, ms
	TxnHandler      string
	DeserHandler    string // "", continue, fail, exit ("" = not configured)
	NoTxnHandler    bool
	Metrics         string // "", log, slow, block
	Interj          []ijSpec
	Strategies      []int // extra balance strategies (0 range,1 rr,2 coop sticky,3 incremental)
	Complete        int   // 1: every record must be processed and committed in the end
	Sync            int   // 1: all processing is synchronous
	SettleMs        int   // how long to wait for completion
	TailMs          int   // how long to stay afterwards
	Expect          map[string]int
	FetchBytes      int
	TypedA, TypedB  bool
	Slack           int
	Ops             []eosOp
	SchedConc       int
	SchedDepth      int
	SchedKeys       int
	BatchMax        int
	BatchConc       int
	StateClusterSep bool
	RecvErr         int // every n-th change: ReceiveChange returns an error after it has taken it
}

type ijSpec struct {
	Every, Jitter, Async int
	Work                 int // how long it runs, ms
	Outs                 int
	Chg                  []int
}

type eosOp struct {
	Op    string
	M     string
	P, N  int
	Ms    int
	V     V
	Type  string
	API   string
	Topic string
	Nth   int
	Count int
	Err   int16
	Part  int    // a Fetch error only for partition Part-1
	Drop  string // pre, post
	Order string
	Async int
	Outs  int
	Chg   []int
	Wait  string
	One   int // 1: a fault stays with the producer it first hits
}

// V tells the event processor what to do with a record.
type V struct {
	M  string `json:"m,omitempty"`
	O  int    `json:"o,omitempty"`  // outputs forwarded by the processor
	O2 int    `json:"o2,omitempty"` // outputs forwarded by the finalizer
	C  []int  `json:"c,omitempty"`  // store keys changed by the processor, negative: -(k+1) deletes k
	C2 []int  `json:"c2,omitempty"` // by the finalizer
	K  string `json:"k,omitempty"`
	D  int    `json:"d,omitempty"`  // duration of asynchronous work, ms
	W  int    `json:"w,omitempty"`  // time spent in the processor, ms
	W2 int    `json:"w2,omitempty"` // time spent in the finalizer, ms
	J  int    `json:"j,omitempty"`  // number of jobs
	DP int    `json:"dp,omitempty"` // destination partition + 1; 0: by key
}

type kv struct {
	r   *eosRun
	m   string
	p   int
	mu  sync.Mutex
	val []int
	n   int
}

func (s *kv) snap() []int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]int(nil), s.val...)
}

func (s *kv) ReceiveChange(rec streams.IncomingRecord) error {
	k, err := strconv.Atoi(strings.TrimPrefix(string(rec.Key()), "k"))
	if err != nil || k >= len(s.val) {
		s.r.tr.Log(E{"ev": "recv", "m": s.m, "p": s.p, "k": -1, "v": 0})
		return err
	}
	v := 0
	if len(rec.Value()) > 0 {
		v, _ = strconv.Atoi(string(rec.Value()))
	}
	s.r.tr.Log(E{"ev": "recv", "m": s.m, "p": s.p, "k": k, "v": v})
	s.mu.Lock()
	s.val[k] = v
	s.n++
	bad := s.r.s.RecvErr > 0 && s.n%s.r.s.RecvErr == 0
	s.mu.Unlock()
	if bad {
		return errors.New("a change which the store complains about")
	}
	return nil
}

func (s *kv) Revoked() { s.r.tr.Log(E{"ev": "srevoked", "m": s.m, "p": s.p}) }

type member struct {
	r       *eosRun
	name    string
	es      *streams.EventSource[*kv]
	ready   chan struct{}
	failed  bool
	mu      sync.Mutex
	stores  map[int]*kv
	sched   *streams.AsyncJobScheduler[*kv, string, job]
	batch   *streams.AsyncBatcher[*kv, string, job]
	bp      *streams.BatchProducer[*kv]
	stopCh  chan struct{}
	gone    bool
	done    bool
	crashed bool
	wait    bool
	active  map[int]bool
}

type job struct {
	h int
	v V
	p int
	o int64
}

type fault struct {
	op   eosOp
	seen int
	txn  string
}

func txnID(req kmsg.Request) string {
	switch q := req.(type) {
	case *kmsg.EndTxnRequest:
		return q.TransactionalID
	case *kmsg.AddPartitionsToTxnRequest:
		return q.TransactionalID
	case *kmsg.ProduceRequest:
		if q.TransactionID != nil {
			return *q.TransactionID
		}
	}
	return ""
}

type held struct {
	h  int
	fn func()
}

type eosRun struct {
	s       *eosScn
	tr      *Trace
	b       *broker.Broker
	mu      sync.Mutex
	rng     *rand.Rand
	members map[string]*member
	order   []string
	faults  []*fault
	held    []held
	lat     [2]int
	last    map[int]int64 // next offset after the last input
	prog    map[int]int64
	curTxn  map[string]int
	txns    int
	txnProg map[int]map[int]int64
	ijID    int
	wg      sync.WaitGroup
}

func init() { runners["eos"] = runEos }

func runEos(t *testing.T, raw json.RawMessage, tr *Trace) {
	s := &eosScn{Brokers: 1, OutParts: 1, Keys: 3, SettleMs: 1200000, TailMs: 2000}
	if err := json.Unmarshal(raw, s); err != nil {
		Die("scenario: %v", err)
	}
	r := &eosRun{s: s, tr: tr, rng: rand.New(rand.NewSource(s.Seed)), members: map[string]*member{},
		last: map[int]int64{}, prog: map[int]int64{}, curTxn: map[string]int{}, txnProg: map[int]map[int]int64{}}
	r.lat = [2]int{s.LatMin, s.LatMax}
	exp := s.Expect
	if exp == nil {
		exp = map[string]int{}
	}
	conf := *s
	if s.Pool == 0 && s.Pending == 0 && s.Target == 0 && s.Max == 0 && s.DelayMs == 0 {
		// the documented defaults
		conf.Pool, conf.Pending, conf.Target, conf.Max, conf.DelayMs = 3, 1, 1000, 10000, 10
	}
	tr.Log(E{"ev": "cfg", "parts": s.Parts, "keys": s.Keys, "pool": conf.Pool, "max": conf.Max, "target": conf.Target, "delay": conf.DelayMs,
		"pending": conf.Pending, "goff": b2i(s.CommitOffsets), "complete": s.Complete, "sync": s.Sync, "metrics": s.Metrics,
		"txnh": s.TxnHandler, "deser": s.DeserHandler, "slack": s.Slack, "cb": b2i(len(s.CbMs) > 0), "interj": ijCfg(s.Interj),
		"incr": b2i(len(s.Strategies) == 0), "lat": exp["lat"], "full": exp["full"], "tol": exp["tol"],
		"mustfail": exp["mustfail"], "gend": exp["gend"], "bal": exp["bal"], "starterr": exp["starterr"]})
	r.b = broker.New("k", s.Brokers)
	r.b.InitialRebalanceDelay = 100 * time.Millisecond
	if s.Seed%4 == 0 && len(s.Interj) == 0 { // interjections have to be scheduled before the first partition is assigned
		r.b.InitialRebalanceDelay = 0
	}
	r.b.Record = r.record
	r.b.Hook = r.hook
	r.b.CreateTopic(srcTopic, s.Parts, 1, nil)
	r.b.CreateTopic(outTopic, s.OutParts, 1, nil)
	r.b.CreateTopic(sideTopic, 2, 1, nil)
	for _, op := range s.Ops {
		r.do(op)
	}
	r.settle()
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func ijCfg(js []ijSpec) []map[string]int {
	o := []map[string]int{}
	for _, j := range js {
		o = append(o, map[string]int{"every": j.Every, "jitter": j.Jitter, "async": j.Async})
	}
	return o
}

func tagOf(e broker.Event) string { s, _ := e["tag"].(string); return s }

// record translates what the broker did. Called under the broker's lock.
func (r *eosRun) record(e broker.Event) {
	switch e["ev"] {
	case "begin":
		r.txns++
		x := r.txns
		r.curTxn[e["txn"].(string)] = x
		r.tr.Log(E{"ev": "begin", "x": x, "tag": tagOf(e)})
	case "end":
		x := r.curTxn[e["txn"].(string)]
		ok := e["commit"].(bool)
		if ok {
			r.mu.Lock()
			for p, o := range r.txnProg[x] {
				if o > r.prog[p] {
					r.prog[p] = o
				}
			}
			r.mu.Unlock()
		}
		end := E{"ev": "end", "x": x, "ok": b2i(ok), "why": e["why"], "tag": tagOf(e), "rt": 0}
		if a, k := e["asked"].(time.Time); k && !a.IsZero() {
			end["rt"] = a.Sub(r.tr.start).Milliseconds()
		}
		r.tr.Log(end)
	case "append":
		r.recordAppend(e)
	case "crash":
		r.tr.Crash(tagOf(e))
		r.mu.Lock()
		if mb := r.members[tagOf(e)]; mb != nil {
			mb.crashed = true
		}
		r.mu.Unlock()
	case "leave", "expire", "evict":
		r.tr.Log(E{"ev": "left", "tag": tagOf(e), "why": e["ev"]})
	case "gen":
		r.tr.Log(E{"ev": "gen", "gen": e["gen"], "members": e["members"], "proto": e["proto"]})
	case "plan":
		pl := map[string][]int32{}
		for m, tp := range e["plan"].(map[string]map[string][]int32) {
			ps := tp[srcTopic]
			if ps == nil {
				ps = []int32{}
			}
			pl[m] = ps
		}
		r.tr.Log(E{"ev": "plan", "gen": e["gen"], "plan": pl})
	case "groupcommit":
		if e["topic"] == srcTopic {
			r.tr.Log(E{"ev": "groupcommit", "p": e["p"], "o": e["o"]})
		}
	case "compact":
		r.tr.Log(E{"ev": "compact", "topic": e["topic"], "p": e["p"]})
	}
}

func (r *eosRun) recordAppend(e broker.Event) {
	topic := e["topic"].(string)
	p := int(e["p"].(int32))
	o := e["o"].(int64)
	hdrs, _ := e["hdrs"].([]kmsg.Header)
	key, _ := e["key"].([]byte)
	val, _ := e["val"].([]byte)
	x := 0
	if id := e["txn"].(string); id != "" {
		x = r.curTxn[id]
	}
	if len(hdrs) == 1 && hdrs[0].Key == "gkes__mark" {
		return
	}
	size := len(key) + len(val)
	for _, h := range hdrs {
		size += len(h.Key) + len(h.Value)
	}
	h, i := -1, -1
	for _, hd := range hdrs {
		if hd.Key == "id" {
			fmt.Sscanf(string(hd.Value), "%d,%d", &h, &i)
		}
	}
	switch topic {
	case srcTopic:
		ty := ""
		for _, hd := range hdrs {
			if hd.Key == "ty" {
				ty = string(hd.Value)
			}
		}
		r.tr.Log(E{"ev": "in", "p": p, "o": o, "ty": ty})
	case outTopic:
		r.tr.Log(E{"ev": "app", "c": "out", "dp": p, "o": o, "h": h, "i": i, "x": x, "k": string(key), "sz": size, "tag": tagOf(e)})
	case changeTopic:
		k, err := strconv.Atoi(strings.TrimPrefix(string(key), "k"))
		if err != nil {
			k = -1
		}
		v, _ := strconv.Atoi(string(val))
		r.tr.Log(E{"ev": "app", "c": "chg", "dp": p, "o": o, "h": h, "i": i, "kk": k, "v": v, "x": x, "sz": size, "tag": tagOf(e)})
	case commitTopic:
		sp, next := -1, int64(-1)
		if len(key) >= 8 && len(val) >= 8 && string(key[8:]) == srcTopic {
			sp = int(binary.LittleEndian.Uint64(key))
			next = int64(binary.LittleEndian.Uint64(val))
		}
		r.mu.Lock()
		if r.txnProg[x] == nil {
			r.txnProg[x] = map[int]int64{}
		}
		r.txnProg[x][sp] = next
		r.mu.Unlock()
		r.tr.Log(E{"ev": "app", "c": "cl", "dp": p, "o": o, "h": -1, "i": -1, "sp": sp, "next": next, "x": x, "sz": size, "tag": tagOf(e)})
	case sideTopic:
		r.tr.Log(E{"ev": "side", "dp": p, "o": o, "h": h, "i": i})
	}
}

func (r *eosRun) hook(tag string, req kmsg.Request) broker.Action {
	var a broker.Action
	name := kmsg.NameForKey(req.Key())
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.lat[1] > 0 && name != "InitProducerID" && name != "ApiVersions" {
		a.Delay = time.Duration(r.lat[0]+r.rng.Intn(r.lat[1]-r.lat[0]+1)) * time.Millisecond
	}
	for _, f := range r.faults {
		if f.op.API != name || (f.op.M != "" && f.op.M != tag) {
			continue
		}
		if f.op.Topic != "" {
			hit := false
			switch pr := req.(type) {
			case *kmsg.ProduceRequest:
				for _, t := range pr.Topics {
					hit = hit || t.Topic == f.op.Topic
				}
			case *kmsg.FetchRequest:
				for _, t := range pr.Topics {
					hit = hit || t.Topic == f.op.Topic
				}
			}
			if !hit {
				continue
			}
		}
		if pr, ok := req.(*kmsg.ProduceRequest); ok && pr.TransactionID == nil && (f.op.Err == 47 || f.op.Err == 53) {
			continue // errors of transactions
		}
		if f.txn != "" && f.txn != txnID(req) {
			continue
		}
		f.seen++
		if f.seen < f.op.Nth || (f.op.Count > 0 && f.seen >= f.op.Nth+f.op.Count) {
			continue
		}
		if f.op.One == 1 {
			f.txn = txnID(req)
		}
		switch {
		case f.op.Op == "crashat" && f.op.Drop == "pre":
			go r.b.Crash(tag)
			a.DropPre = true
		case f.op.Op == "crashat":
			a.Post = func() { r.b.Crash(tag) }
			a.DropPost = true
		case f.op.Drop == "pre":
			a.DropPre = true
		case f.op.Drop == "post":
			a.DropPost = true
		case f.op.Err != 0:
			a.Err, a.ErrPart = f.op.Err, f.op.Part
		}
		if f.op.Ms > 0 && name != "InitProducerID" {
			a.Delay += time.Duration(f.op.Ms) * time.Millisecond
		}
	}
	return a
}

func (r *eosRun) do(op eosOp) {
	switch op.Op {
	case "start":
		r.start(op)
	case "sleep":
		time.Sleep(time.Duration(op.Ms) * time.Millisecond)
	case "produce":
		n := op.N
		if n == 0 {
			n = 1
		}
		for i := 0; i < n; i++ {
			r.produce(op)
			if op.Ms > 0 {
				time.Sleep(time.Duration(op.Ms) * time.Millisecond)
			}
		}
	case "gap":
		r.b.AppendGap(srcTopic, int32(op.P), int64(op.N))
	case "compact":
		for p := 0; p < r.s.Parts; p++ {
			r.b.Compact(changeTopic, int32(p), op.N > 0)
		}
	case "crash":
		r.b.Crash(op.M)
		r.get(op.M).gone = true
	case "sever":
		r.b.Sever(op.M)
	case "kick":
		r.tr.Log(E{"ev": "kick", "m": op.M})
		r.b.Kick(op.M)
	case "fault", "crashat":
		r.mu.Lock()
		r.faults = append(r.faults, &fault{op: op})
		r.mu.Unlock()
	case "clear":
		r.mu.Lock()
		r.faults = nil
		r.mu.Unlock()
	case "lat":
		r.mu.Lock()
		r.lat = [2]int{op.P, op.N}
		r.mu.Unlock()
	case "release":
		r.release(op)
	case "stop", "stopnow":
		mb := r.get(op.M)
		if mb == nil || mb.failed {
			return
		}
		r.tr.Log(E{"ev": op.Op, "m": op.M})
		switch {
		case op.Op == "stopnow":
			go func() {
				mb.es.StopNow()
				r.tr.Log(E{"ev": "stopped", "m": op.M})
			}()
		case mb.stopCh != nil:
			close(mb.stopCh)
			mb.stopCh = nil
		default:
			n := op.N
			if n == 0 {
				n = 1
			}
			for i := 0; i < n; i++ {
				mb.es.Stop()
			}
		}
		mb.gone = true
	case "interject":
		mb := r.get(op.M)
		if mb == nil || mb.failed {
			return
		}
		r.mu.Lock()
		r.ijID++
		id := r.ijID
		r.mu.Unlock()
		r.tr.Log(E{"ev": "ijcall", "m": op.M, "p": op.P, "id": id})
		go func() {
			err := <-mb.es.Interject(int32(op.P), mb.interjector("one", id, ijSpec{Async: op.Async, Work: op.Ms, Outs: op.Outs, Chg: op.Chg}))
			r.tr.Log(E{"ev": "ijret", "m": op.M, "p": op.P, "id": id, "err": b2i(err != nil)})
		}()
	case "interjectall", "interjectallsync":
		mb := r.get(op.M)
		if mb == nil || mb.failed {
			return
		}
		r.mu.Lock()
		r.ijID++
		id := r.ijID
		r.mu.Unlock()
		r.tr.Log(E{"ev": "ijcall", "m": op.M, "p": -1, "id": id})
		go func() {
			f := mb.interjector("all", id, ijSpec{Async: op.Async, Work: op.Ms, Outs: op.Outs, Chg: op.Chg})
			if op.Op == "interjectall" {
				mb.es.InterjectAll(f)
			} else {
				mb.es.InterjectAllSync(f)
			}
			r.tr.Log(E{"ev": "ijret", "m": op.M, "p": -1, "id": id, "err": 0})
		}()
	case "emit":
		mb := r.get(op.M)
		if mb != nil && !mb.failed {
			for i := 0; i <= op.N; i++ {
				mb.es.EmitMetric(streams.Metric{Operation: "custom", Count: i})
			}
		}
	case "progress":
		r.waitProgress(time.Duration(op.Ms) * time.Millisecond)
	default:
		Die("unknown op %q", op.Op)
	}
}

func (r *eosRun) get(m string) *member {
	mb := r.members[m]
	if mb == nil {
		return nil
	}
	select {
	case <-mb.ready:
	case <-time.After(60 * time.Second):
		mb.failed = true
	}
	return mb
}

func (r *eosRun) produce(op eosOp) {
	v := op.V
	val, _ := json.Marshal(v)
	var hdrs []kmsg.Header
	if op.Type != "" {
		ty := op.Type
		if ty == "badA" {
			ty, val = "A", []byte("{broken")
		}
		hdrs = append(hdrs, kmsg.Header{Key: streams.RecordTypeHeaderKey, Value: []byte(ty)})
	}
	hdrs = append(hdrs, kmsg.Header{Key: "ty", Value: []byte(op.Type)})
	off := r.b.Append(srcTopic, int32(op.P), []byte(v.K), val, hdrs...)
	r.mu.Lock()
	r.last[op.P] = off + 1
	r.mu.Unlock()
}

func (r *eosRun) release(op eosOp) {
	r.mu.Lock()
	hs := r.held
	switch op.Order {
	case "lifo":
		for i, j := 0, len(hs)-1; i < j; i, j = i+1, j-1 {
			hs[i], hs[j] = hs[j], hs[i]
		}
	case "rand":
		r.rng.Shuffle(len(hs), func(i, j int) { hs[i], hs[j] = hs[j], hs[i] })
	default:
		sort.Slice(hs, func(i, j int) bool { return hs[i].h < hs[j].h })
	}
	n := len(hs)
	if op.N > 0 && op.N < n {
		n = op.N
	}
	r.held = append([]held(nil), hs[n:]...)
	r.mu.Unlock()
	for _, h := range hs[:n] {
		h.fn()
		if op.Ms > 0 {
			time.Sleep(time.Duration(op.Ms) * time.Millisecond)
		}
	}
}

func (r *eosRun) complete() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	for p, o := range r.last {
		if r.prog[p] < o {
			return false
		}
	}
	return true
}

func (r *eosRun) waitProgress(d time.Duration) bool {
	end := time.Now().Add(d)
	for time.Now().Before(end) {
		if r.complete() {
			return true
		}
		time.Sleep(50 * time.Millisecond)
	}
	return r.complete()
}

func (mb *member) setActive(p int, on bool) {
	mb.r.mu.Lock()
	mb.active[p] = on
	mb.r.mu.Unlock()
}

// settled: there is nothing to wait for any more. (Whether that is as it should be is for the specification to say.)
func (r *eosRun) settled() bool {
	if _, stable := r.b.GroupMembers(groupID); !stable || !r.complete() {
		return false
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	n := 0
	for _, m := range r.order {
		mb := r.members[m]
		if mb.failed || mb.done || mb.crashed {
			continue
		}
		if mb.gone {
			return false
		}
		for _, on := range mb.active {
			n += b2i(on)
		}
	}
	return n == r.s.Parts
}

func (r *eosRun) settle() {
	r.mu.Lock()
	r.faults = nil
	r.lat = [2]int{0, 0}
	r.mu.Unlock()
	live := 0
	for _, m := range r.order {
		if mb := r.get(m); !mb.gone && !mb.failed {
			live++
		}
	}
	r.tr.Log(E{"ev": "calm", "live": live})
	if r.s.Complete == 1 {
		for end := time.Now().Add(time.Duration(r.s.SettleMs) * time.Millisecond); !r.settled() && time.Now().Before(end); {
			time.Sleep(50 * time.Millisecond)
		}
	}
	time.Sleep(time.Duration(r.s.TailMs) * time.Millisecond)
	for _, m := range r.order {
		mb := r.members[m]
		st := -1
		if !mb.failed {
			st = int(mb.es.State())
		}
		r.tr.Log(E{"ev": "final", "m": m, "state": st, "gone": b2i(mb.gone), "wait": b2i(mb.wait && mb.stopCh == nil)})
	}
	tags, stable := r.b.GroupMembers(groupID)
	if tags == nil {
		tags = []string{}
	}
	goff := []int64{}
	for p := 0; p < r.s.Parts; p++ {
		goff = append(goff, r.b.GroupOffset(groupID, srcTopic, int32(p)))
	}
	if os.Getenv("VERIF_DUMP") != "" {
		buf := make([]byte, 1<<22)
		os.Stderr.Write(buf[:runtime.Stack(buf, true)])
	}
	r.tr.Log(E{"ev": "quiet", "members": tags, "stable": b2i(stable), "goff": goff})
}

func (r *eosRun) start(op eosOp) {
	mb := &member{r: r, name: op.M, ready: make(chan struct{}), stores: map[int]*kv{}, active: map[int]bool{}, wait: op.Wait == "chan"}
	r.members[op.M] = mb
	r.order = append(r.order, op.M)
	r.tr.Log(E{"ev": "start", "m": op.M})
	go func() {
		defer close(mb.ready)
		mb.open(op)
	}()
}

func (mb *member) log(e E) { e["m"] = mb.name; mb.r.tr.Log(e) }

func (mb *member) open(op eosOp) {
	r, s := mb.r, mb.r.s
	cl := &broker.Cluster{B: r.b, Tag: mb.name}
	if r.s.FetchBytes > 0 {
		cl.Opts = append(cl.Opts, kgo.FetchMaxPartitionBytes(int32(r.s.FetchBytes)))
	}
	cfg := streams.EventSourceConfig{
		GroupId: groupID, Topic: srcTopic, NumPartitions: s.Parts, SourceCluster: cl,
		CommitLogPartitions: s.CommitParts, CommitOffsets: s.CommitOffsets,
		EosConfig: streams.EosConfig{PoolSize: s.Pool, PendingTxnCount: s.Pending, TargetBatchSize: s.Target,
			MaxBatchSize: s.Max, BatchDelay: time.Duration(s.DelayMs) * time.Millisecond},
		OnPartitionAssigned: func(_ *streams.Source, p int32) {
			mb.log(E{"ev": "assigned", "p": p})
			mb.slow("assigned", p, 0)
		},
		OnPartitionActivated: func(_ *streams.Source, p int32) {
			mb.log(E{"ev": "activated", "p": p, "st": mb.snap(int(p))})
			mb.setActive(int(p), true)
			mb.slow("activated", p, 1)
		},
		OnPartitionWillRevoke: func(_ *streams.Source, p int32) {
			mb.setActive(int(p), false)
			mb.log(E{"ev": "willrevoke", "p": p})
			mb.slow("willrevoke", p, 2)
		},
		OnPartitionRevoked: func(_ *streams.Source, p int32) {
			mb.log(E{"ev": "revoked", "p": p})
			mb.slow("revoked", p, 3)
		},
	}
	for _, st := range s.Strategies {
		cfg.BalanceStrategies = append(cfg.BalanceStrategies, streams.BalanceStrategy(st))
	}
	if s.TxnHandler != "none" {
		cfg.TxnErrorHandler = func(err error) streams.ErrorResponse {
			mb.log(E{"ev": "txnerr", "err": trunc(err.Error())})
			switch s.TxnHandler {
			case "continue":
				return streams.Continue
			}
			return streams.FailConsumer
		}
	}
	if s.DeserHandler != "" {
		cfg.DeserializationErrorHandler = func(ec streams.ErrorContext, ty string, err error) streams.ErrorResponse {
			mb.log(E{"ev": "deser", "p": ec.TopicPartition().Partition, "o": ec.Offset(), "ty": ty})
			switch s.DeserHandler {
			case "fail":
				return streams.FailConsumer
			case "exit":
				return streams.FatallyExit
			}
			return streams.Continue
		}
	}
	switch s.Metrics {
	case "log":
		cfg.MetricsHandler = func(m streams.Metric) {
			ago := func(t time.Time) int64 { return max(time.Since(t).Microseconds(), -1) }
			mb.log(E{"ev": "metric", "op": m.Operation, "n": m.Count, "bytes": m.Bytes, "pc": m.PartitionCount, "p": m.Partition, "topic": m.Topic, "group": m.GroupId,
				"ago": []int64{min(ago(m.StartTime), 1<<30), min(ago(m.ExecuteTime), 1<<30), min(ago(m.EndTime), 1<<30)}})
		}
	case "slow":
		cfg.MetricsHandler = func(m streams.Metric) { time.Sleep(200 * time.Millisecond) }
	case "block":
		cfg.MetricsHandler = func(m streams.Metric) { select {} }
	}
	es, err := streams.NewEventSource(cfg, func(tp streams.TopicPartition) *kv {
		st := &kv{r: r, m: mb.name, p: int(tp.Partition), val: make([]int, s.Keys)}
		mb.mu.Lock()
		mb.stores[int(tp.Partition)] = st
		mb.mu.Unlock()
		return st
	}, func(ec *streams.EventContext[*kv], in streams.IncomingRecord) streams.ExecutionState {
		var v V
		json.Unmarshal(in.Value(), &v)
		return mb.process(ec, v, "def", in)
	})
	if err != nil {
		mb.failed = true
		mb.log(E{"ev": "starterr", "err": trunc(err.Error())})
		return
	}
	mb.es = es
	if s.TypedA {
		streams.RegisterEventType(es, streams.JsonItemDecoder[V], func(ec *streams.EventContext[*kv], v V) streams.ExecutionState {
			in, _ := ec.Input()
			return mb.process(ec, v, "A", in)
		}, "A")
	}
	if s.TypedB {
		streams.RegisterEventType(es, streams.JsonItemDecoder[V], func(ec *streams.EventContext[*kv], v V) streams.ExecutionState {
			in, _ := ec.Input()
			return mb.process(ec, v, "B", in)
		}, "B")
		// a second registration of the same type must never be reached
		streams.RegisterEventType(es, streams.JsonItemDecoder[V], func(ec *streams.EventContext[*kv], v V) streams.ExecutionState {
			in, _ := ec.Input()
			return mb.process(ec, v, "B2", in)
		}, "B")
	}
	for n, ij := range s.Interj {
		n, ij := n, ij
		es.ScheduleInterjection(mb.interjector("sched", n, ij), time.Duration(ij.Every)*time.Millisecond, time.Duration(ij.Jitter)*time.Millisecond)
	}
	conc, depth, keys := s.SchedConc, s.SchedDepth, s.SchedKeys
	if conc == 0 {
		conc, depth, keys = 3, 4, 4
	}
	mb.sched, err = streams.CreateAsyncJobScheduler(es, func(k string, j job) error {
		time.Sleep(time.Duration(j.v.D) * time.Millisecond)
		return nil
	}, func(ec *streams.EventContext[*kv], k string, j job, err error) streams.ExecutionState {
		return mb.finish(ec, j.h, j.v, nil)
	}, streams.SchedulerConfig{Concurrency: conc, WorkerQueueDepth: depth, MaxConcurrentKeys: keys})
	if err != nil {
		Die("scheduler: %v", err)
	}
	bm, bc := s.BatchMax, s.BatchConc
	if bm == 0 {
		bm, bc = 3, 2
	}
	mb.batch = streams.NewAsyncBatcher[*kv](func(items []*streams.BatchItem[string, job]) {
		d := 0
		for _, it := range items {
			d = max(d, it.Value.v.D)
		}
		time.Sleep(time.Duration(d) * time.Millisecond)
	}, bm, bc, 5*time.Millisecond)
	mb.bp = streams.NewBatchProducer[*kv](streams.Destination{DefaultTopic: sideTopic, Cluster: cl})
	if op.Wait == "chan" {
		mb.stopCh = make(chan struct{})
		go es.WaitForChannel(mb.stopCh, func() { mb.log(E{"ev": "chandone"}) })
	}
	go func() {
		<-es.Done()
		mb.log(E{"ev": "esdone", "state": int(es.State())})
		r.mu.Lock()
		mb.done = true
		r.mu.Unlock()
		<-es.Done() // everyone who waits is woken up
		mb.log(E{"ev": "esdone2"})
	}()
	es.ConsumeEvents()
	mb.log(E{"ev": "opened"})
}

func trunc(s string) string {
	if len(s) > 80 {
		s = s[:80]
	}
	return s
}

func (mb *member) snap(p int) []int {
	mb.mu.Lock()
	st := mb.stores[p]
	mb.mu.Unlock()
	if st == nil {
		return make([]int, mb.r.s.Keys)
	}
	return st.snap()
}

type ectx = streams.EventContext[*kv]

func (mb *member) outs(ec *ectx, h, i, n int, v V) int {
	for k := 0; k < n; k++ {
		dp := v.DP - 1
		mb.log(E{"ev": "fwd", "p": ec.TopicPartition().Partition, "h": h, "i": i, "c": "out", "dp": dp})
		rec := streams.NewRecord().WithTopic(outTopic).WithKeyString(v.K).
			WithValue([]byte(fmt.Sprintf("v%d", h))).WithHeader("id", []byte(fmt.Sprintf("%d,%d", h, i)))
		switch v.M {
		case "notopic":
			rec = rec.WithTopic("nope")
		case "toolarge":
			rec = rec.WithValue(make([]byte, 2<<20))
		}
		if dp >= 0 {
			rec = rec.WithPartition(int32(dp))
		}
		ec.Forward(rec)
		i++
	}
	return i
}

func (mb *member) changes(ec *ectx, h, i int, ks []int) int {
	for _, k := range ks {
		val := h*1000 + i
		kk := k
		if k < 0 {
			kk, val = -k-1, 0
		}
		kk = kk % mb.r.s.Keys
		st := ec.Store()
		mb.log(E{"ev": "fwd", "p": ec.TopicPartition().Partition, "h": h, "i": i, "c": "chg", "dp": ec.TopicPartition().Partition, "k": kk, "v": val})
		st.mu.Lock()
		st.val[kk] = val
		st.mu.Unlock()
		cle := streams.NewChangeLogEntry().WithKeyString(fmt.Sprintf("k%d", kk)).WithHeader("id", []byte(fmt.Sprintf("%d,%d", h, i)))
		if val != 0 {
			cle = cle.WithValue([]byte(strconv.Itoa(val)))
		}
		ec.RecordChange(cle)
		i++
	}
	return i
}

// slow is a callback that takes its time.
func (mb *member) slow(cb string, p int32, k int) {
	if ms := mb.r.s.CbMs; len(ms) > 0 {
		nap(ms[(int(p)+k)%len(ms)])
		mb.log(E{"ev": "cbend", "p": p, "cb": cb})
	}
}

func (mb *member) exit(ec *ectx, h int, st streams.ExecutionState) streams.ExecutionState {
	mb.log(E{"ev": "exit", "p": ec.TopicPartition().Partition, "h": h, "done": b2i(st == streams.Complete)})
	return st
}

func nap(ms int) {
	if ms > 0 {
		time.Sleep(time.Duration(ms) * time.Millisecond)
	}
}

func (mb *member) process(ec *ectx, v V, kind string, in streams.IncomingRecord) streams.ExecutionState {
	p := int(ec.TopicPartition().Partition)
	h := mb.r.tr.NewHandle(func(h int) E {
		return E{"ev": "handle", "m": mb.name, "p": p, "o": ec.Offset(), "h": h, "k": kind, "st": ec.Store().snap()}
	})
	nap(v.W)
	i := mb.outs(ec, h, 0, v.O, v)
	i = mb.changes(ec, h, i, v.C)
	j := job{h: h, v: v, p: p, o: ec.Offset()}
	next := &i
	async := func() { ec.AsyncJobComplete(func() streams.ExecutionState { return mb.finish(ec, h, v, next) }) }
	switch v.M {
	case "", "sync", "notopic", "toolarge":
		return mb.exit(ec, h, streams.Complete)
	case "never":
		return mb.exit(ec, h, streams.Incomplete)
	case "async":
		go func() { nap(v.D); async() }()
	case "hold":
		var once sync.Once
		fn := func() { once.Do(async) }
		mb.r.mu.Lock()
		mb.r.held = append(mb.r.held, held{h, fn})
		mb.r.mu.Unlock()
		time.AfterFunc(10*time.Second, fn) // well before the transaction times out
	case "multi":
		n := v.J
		left := n
		for k := 0; k < n; k++ {
			k := k
			go func() {
				nap(v.D * (1 + (k*7+h)%n))
				ec.AsyncJobComplete(func() streams.ExecutionState {
					left--
					mb.log(E{"ev": "fin", "p": p, "h": h})
					nap(v.W2)
					*next = mb.outs(ec, h, *next, v.O2, v)
					*next = mb.changes(ec, h, *next, v.C2)
					if left == 0 {
						return mb.exit(ec, h, streams.Complete)
					}
					return mb.exit(ec, h, streams.Incomplete)
				})
			}()
		}
	case "sched":
		mb.exit(ec, h, streams.Incomplete)
		return mb.sched.Schedule(ec, v.K, j)
	case "batch":
		mb.exit(ec, h, streams.Incomplete)
		b := streams.NewBatchItems[*kv](ec, v.K, func(ec *ectx, b *streams.BatchItems[*kv, string, job]) streams.ExecutionState {
			return mb.finish(ec, h, v, nil)
		})
		for k := 0; k < v.J; k++ {
			b.Add(j)
		}
		return mb.batch.Add(b)
	case "bp":
		mb.exit(ec, h, streams.Incomplete)
		var recs []*streams.Record
		for k := 0; k < v.J; k++ {
			recs = append(recs, streams.NewRecord().WithKeyString(v.K).WithHeader("id", []byte(fmt.Sprintf("%d,%d", h, k))))
		}
		return mb.bp.Produce(ec, recs, func(ec *ectx, _ []*streams.Record, _ any) streams.ExecutionState {
			return mb.finish(ec, h, v, nil)
		}, nil)
	default:
		Die("mode %q", v.M)
	}
	return mb.exit(ec, h, streams.Incomplete)
}

// finish is the finalizer of an asynchronous event: it runs in the partition's own context.
func (mb *member) finish(ec *ectx, h int, v V, next *int) streams.ExecutionState {
	mb.log(E{"ev": "fin", "p": ec.TopicPartition().Partition, "h": h})
	nap(v.W2)
	i := v.O + len(v.C)
	if next != nil {
		i = *next
	}
	i = mb.outs(ec, h, i, v.O2, v)
	mb.changes(ec, h, i, v.C2)
	return mb.exit(ec, h, streams.Complete)
}

func (mb *member) interjector(kind string, id int, sp ijSpec) streams.Interjector[*kv] {
	return func(ec *ectx, _ time.Time) streams.ExecutionState {
		p := ec.TopicPartition().Partition
		h := mb.r.tr.NewHandle(func(h int) E {
			return E{"ev": "ij", "m": mb.name, "p": p, "h": h, "kind": kind, "id": id, "off": ec.Offset(), "st": ec.Store().snap()}
		})
		v := V{K: "ij", O: sp.Outs, C: sp.Chg}
		i := mb.outs(ec, h, 0, v.O, v)
		mb.changes(ec, h, i, v.C)
		nap(sp.Work)
		if sp.Async > 0 {
			go func() {
				nap(sp.Async)
				ec.AsyncJobComplete(func() streams.ExecutionState { return mb.finish(ec, h, V{K: "ij", O: sp.Outs, C: sp.Chg}, nil) })
			}()
			return mb.exit(ec, h, streams.Incomplete)
		}
		return mb.exit(ec, h, streams.Complete)
	}
}
