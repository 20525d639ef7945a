// Package broker is an in-memory stand-in for a Kafka cluster. It speaks the Kafka wire protocol over
// net.Pipe connections, so the unmodified client library and the code under test run against it inside
// a testing/synctest bubble. It is the linearization point of every effect the properties talk about.
package broker

import (
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/twmb/franz-go/pkg/kgo"
	"github.com/twmb/franz-go/pkg/kmsg"
)

// error codes used
const (
	errUnknownTopic       = 3
	errInvalidPartitions  = 37
	errTopicExists        = 36
	errOffsetOutOfRange   = 1
	errIllegalGeneration  = 22
	errInconsistentProto  = 23
	errUnknownMember      = 25
	errRebalanceInProg    = 27
	errOutOfOrderSeq      = 45
	errInvalidEpoch       = 47
	errInvalidRecord      = 87
	errInvalidTxnState    = 48
	errInvalidPidMapping  = 49
	errConcurrentTxns     = 51
	errMessageTooLarge    = 10
	errUnsupportedVersion = 35
	errProducerFenced     = 90
)

var versions = map[int16]int16{
	0: 7, 1: 11, 2: 5, 3: 6, 8: 7, 9: 5, 10: 2, 11: 3, 12: 2, 13: 2, 14: 2, 15: 3, 16: 3, 18: 3, 19: 4, 20: 3,
	22: 3, 23: 3, 24: 1, 26: 1, 32: 3, 42: 1,
}

// Event is something the broker did. It is handed to the Recorder under the broker's lock.
type Event map[string]any

// Action tells the broker how to mistreat a request.
type Action struct {
	Delay    time.Duration // before processing
	After    time.Duration // after processing, before the reply
	Err      int16         // reply with this error code instead of processing (per partition where applicable)
	ErrPart  int           // Fetch: only for partition ErrPart-1, if not 0
	DropPre  bool          // close the connection before processing
	DropPost bool          // process, then close the connection instead of replying
	Post     func()        // called after processing, before the reply
}

type Broker struct {
	mu      sync.Mutex
	Name    string
	topics  map[string]*Topic
	groups  map[string]*group
	txns    map[string]*txn
	pids    map[int64]*pidState
	nextPID int64
	change  chan struct{}
	dead    map[string]bool
	conns   map[*conn]struct{}
	nBroker int32
	// Record, if set, receives every event in order, under the lock.
	Record func(Event)
	// Hook, if set, may alter the treatment of a request. Called without the lock.
	Hook func(tag string, req kmsg.Request) Action
	// InitialRebalanceDelay mimics group.initial.rebalance.delay.ms
	InitialRebalanceDelay time.Duration
	Requests              []string // log of admin requests (CreateTopics) for inspection
	AutoCompact           bool
	memberSeq             int
	dials                 map[string][]string
}

type Topic struct {
	Name    string
	Parts   []*Part
	Configs map[string]string
	RF      int
}

type Part struct {
	Topic   string
	ID      int32
	Batches []*Batch
	HW      int64
	// first offset of open transactions by pid
	open map[int64]int64
	// aborted transactions: pid, first, last(marker)
	aborted []abortedTxn
	// idempotent producer state
	seqs map[int64]*seqState
	// what its readers last asked for
	reads map[string]lastRead
}

type lastRead struct {
	offset int64
	at     time.Time
}

// Kafka keeps tombstones so long that a consumer which has read a value gets to see that it was deleted (delete.retention.ms).
const readerPatience = 15 * time.Second

func (p *Part) beingRead(offset int64) bool {
	for _, r := range p.reads {
		if r.offset <= offset && time.Since(r.at) < readerPatience {
			return true
		}
	}
	return false
}

type abortedTxn struct {
	pid, first, last int64
}
type seqState struct {
	epoch int16
	last  [][3]int64 // firstSeq, count, base
}
type pidState struct {
	epoch int16
	txnID string
}
type txn struct {
	id      string
	pid     int64
	epoch   int16
	timeout time.Duration
	open    bool
	parts   map[*Part]bool
	timer   *time.Timer
	n       int // transactions so far
	tag     string
	last    int // how the last transaction ended: 1 committed, 2 aborted
	asked   time.Time // when it was first asked to end the transaction
}

func New(name string, nBrokers int) *Broker {
	return &Broker{
		Name:    name,
		topics:  map[string]*Topic{},
		groups:  map[string]*group{},
		txns:    map[string]*txn{},
		pids:    map[int64]*pidState{},
		change:  make(chan struct{}),
		dead:    map[string]bool{},
		conns:   map[*conn]struct{}{},
		nBroker: int32(nBrokers),
		nextPID: 1000,
		dials:   map[string][]string{},
	}
}

func (b *Broker) rec(e Event) {
	if b.Record != nil {
		b.Record(e)
	}
}

func (b *Broker) broadcast() {
	close(b.change)
	b.change = make(chan struct{})
}

// CreateTopic creates a topic directly.
func (b *Broker) CreateTopic(name string, parts int, rf int, cfg map[string]string) {
	b.mu.Lock()
	defer b.mu.Unlock()
	b.createTopic(name, parts, rf, cfg)
}

func (b *Broker) createTopic(name string, parts int, rf int, cfg map[string]string) {
	t := &Topic{Name: name, RF: rf, Configs: cfg}
	for i := 0; i < parts; i++ {
		t.Parts = append(t.Parts, &Part{Topic: name, ID: int32(i), open: map[int64]int64{}, seqs: map[int64]*seqState{}})
	}
	b.topics[name] = t
	b.rec(Event{"ev": "topic", "topic": name, "n": parts, "rf": rf})
}

// Topics returns a description of the topics: partitions, rf and configs.
func (b *Broker) TopicInfo(name string) (parts, rf int, cfg map[string]string, ok bool) {
	b.mu.Lock()
	defer b.mu.Unlock()
	t, ok := b.topics[name]
	if !ok {
		return 0, 0, nil, false
	}
	return len(t.Parts), t.RF, t.Configs, true
}

func (b *Broker) TopicNames() []string {
	b.mu.Lock()
	defer b.mu.Unlock()
	var r []string
	for n := range b.topics {
		r = append(r, n)
	}
	sort.Strings(r)
	return r
}

// Append writes one non-transactional record directly (a test producer).
func (b *Broker) Append(topic string, part int32, key, value []byte, hdrs ...kmsg.Header) int64 {
	b.mu.Lock()
	defer b.mu.Unlock()
	p := b.topics[topic].Parts[part]
	bt := &Batch{PID: -1, Epoch: -1, FirstSeq: -1, Recs: []Rec{{Key: key, Value: value, Headers: hdrs, Ts: time.Now().UnixMilli()}}}
	return b.append(p, bt, "driver", "")
}

// AppendAt writes one record leaving a gap in offsets before it, as compaction or control records do.
func (b *Broker) AppendGap(topic string, part int32, gap int64) {
	b.mu.Lock()
	defer b.mu.Unlock()
	b.topics[topic].Parts[part].HW += gap
}

func (b *Broker) append(p *Part, bt *Batch, tag, txnID string) int64 {
	bt.Base = p.HW
	for i := range bt.Recs {
		bt.Recs[i].Offset = bt.Base + int64(i)
	}
	bt.Last = bt.Base + int64(len(bt.Recs)) - 1
	p.HW = bt.Last + 1
	bt.raw = nil
	p.Batches = append(p.Batches, bt)
	for i := range bt.Recs {
		r := &bt.Recs[i]
		b.rec(Event{"ev": "append", "topic": p.Topic, "p": p.ID, "o": r.Offset, "key": r.Key, "val": r.Value, "hdrs": r.Headers, "txn": txnID, "tag": tag, "ts": r.Ts})
	}
	b.broadcast()
	return bt.Base
}

func (p *Part) lso() int64 {
	l := p.HW
	for _, f := range p.open {
		if f < l {
			l = f
		}
	}
	return l
}

// Visible returns the committed records of a partition (what a read_committed consumer sees once stable).
func (b *Broker) Visible(topic string, part int32) []Rec {
	b.mu.Lock()
	defer b.mu.Unlock()
	t := b.topics[topic]
	if t == nil || int(part) >= len(t.Parts) {
		return nil
	}
	return t.Parts[part].visible()
}

func (p *Part) visible() []Rec {
	var out []Rec
	lso := p.lso()
	for _, bt := range p.Batches {
		if bt.Control {
			continue
		}
		if bt.Base >= lso {
			break
		}
		ab := false
		if bt.Txn {
			for _, a := range p.aborted {
				if a.pid == bt.PID && bt.Base >= a.first && bt.Base < a.last {
					ab = true
				}
			}
		}
		if !ab {
			out = append(out, bt.Recs...)
		}
	}
	return out
}

// Compact removes superseded keys below the LSO (and tombstones when dropTombstones).
func (b *Broker) Compact(topic string, part int32, dropTombstones bool) {
	b.mu.Lock()
	defer b.mu.Unlock()
	tp := b.topics[topic]
	if tp == nil || int(part) >= len(tp.Parts) {
		return
	}
	p := tp.Parts[part]
	lso := p.lso()
	latest := map[string]int64{}
	vis := p.visible()
	visOff := map[int64]bool{}
	for _, r := range vis {
		visOff[r.Offset] = true
		latest[string(r.Key)] = r.Offset
	}
	for _, bt := range p.Batches {
		if bt.Control || bt.Last >= lso {
			continue
		}
		var keep []Rec
		for _, r := range bt.Recs {
			if r.Offset == p.HW-1 { // the active segment's last record is never removed
				keep = append(keep, r)
				continue
			}
			if !visOff[r.Offset] || latest[string(r.Key)] != r.Offset {
				continue
			}
			if r.Value == nil && dropTombstones && !p.beingRead(r.Offset) {
				continue
			}
			keep = append(keep, r)
		}
		bt.Recs = keep
		bt.raw = nil
	}
	var kept []*Batch
	for _, bt := range p.Batches {
		if bt.Control || len(bt.Recs) > 0 {
			kept = append(kept, bt)
		}
	}
	p.Batches = kept
	b.rec(Event{"ev": "compact", "topic": topic, "p": part})
}

// Crash severs every connection of a member, for ever.
func (b *Broker) Crash(tag string) {
	b.mu.Lock()
	b.dead[tag] = true
	var cs []*conn
	for c := range b.conns {
		if c.tag == tag {
			cs = append(cs, c)
		}
	}
	b.rec(Event{"ev": "crash", "tag": tag})
	b.mu.Unlock()
	for _, c := range cs {
		c.c.Close()
	}
}

// Sever closes the current connections of a member (it may reconnect).
func (b *Broker) Sever(tag string) {
	b.mu.Lock()
	var cs []*conn
	for c := range b.conns {
		if c.tag == tag {
			cs = append(cs, c)
		}
	}
	b.mu.Unlock()
	for _, c := range cs {
		c.c.Close()
	}
}

// Dials lists the addresses dialled by a member.
func (b *Broker) Dials(tag string) []string {
	b.mu.Lock()
	defer b.mu.Unlock()
	return append([]string(nil), b.dials[tag]...)
}

// OpenTxns counts transactions currently open per member.
func (b *Broker) OpenTxns() (n int) {
	b.mu.Lock()
	defer b.mu.Unlock()
	for _, t := range b.txns {
		if t.open {
			n++
		}
	}
	return
}

// Cluster is a streams.Cluster dialling this broker as a given member.
type Cluster struct {
	B    *Broker
	Tag  string
	Opts []kgo.Opt
	Err  error
}

func (c *Cluster) Config() ([]kgo.Opt, error) {
	if c.Err != nil {
		return nil, c.Err
	}
	return append([]kgo.Opt{kgo.SeedBrokers(c.B.Name + "-1:9092"), kgo.Dialer(c.B.Dialer(c.Tag))}, c.Opts...), nil
}

func (b *Broker) Dialer(tag string) func(ctx context.Context, network, addr string) (net.Conn, error) {
	return func(ctx context.Context, network, addr string) (net.Conn, error) {
		b.mu.Lock()
		b.dials[tag] = append(b.dials[tag], addr)
		dead := b.dead[tag]
		b.mu.Unlock()
		if dead { // nobody answers
			t := time.NewTimer(10 * time.Second)
			defer t.Stop()
			select {
			case <-ctx.Done():
				return nil, ctx.Err()
			case <-t.C:
				return nil, &net.OpError{Op: "dial", Net: network, Err: syscall.ETIMEDOUT}
			}
		}
		if !strings.HasPrefix(addr, b.Name) {
			return nil, &net.OpError{Op: "dial", Net: network, Err: syscall.ECONNREFUSED}
		}
		cl, sv := net.Pipe()
		c := &conn{b: b, c: sv, tag: tag}
		b.mu.Lock()
		b.conns[c] = struct{}{}
		b.mu.Unlock()
		go c.serve()
		return cl, nil
	}
}

type conn struct {
	b   *Broker
	c   net.Conn
	tag string
}

func (c *conn) serve() {
	defer func() {
		c.c.Close()
		c.b.mu.Lock()
		delete(c.b.conns, c)
		c.b.mu.Unlock()
	}()
	for {
		var szb [4]byte
		if _, err := io.ReadFull(c.c, szb[:]); err != nil {
			return
		}
		buf := make([]byte, binary.BigEndian.Uint32(szb[:]))
		if _, err := io.ReadFull(c.c, buf); err != nil {
			return
		}
		if !c.handle(buf) {
			return
		}
	}
}

func (c *conn) handle(buf []byte) bool {
	key := int16(binary.BigEndian.Uint16(buf[0:]))
	ver := int16(binary.BigEndian.Uint16(buf[2:]))
	corr := buf[4:8]
	body := buf[8:]
	idl := int16(binary.BigEndian.Uint16(body))
	body = body[2:]
	if idl > 0 {
		body = body[idl:]
	}
	req := kmsg.RequestForKey(key)
	if req == nil {
		panic(fmt.Sprintf("stand-in broker: unknown request key %d", key))
	}
	req.SetVersion(ver)
	if req.IsFlexible() {
		body = body[1:]
	}
	if err := req.ReadFrom(body); err != nil {
		panic(fmt.Sprintf("malformed request %d v%d: %v", key, ver, err))
	}
	var act Action
	if c.b.Hook != nil {
		act = c.b.Hook(c.tag, req)
	}
	if r, ok := req.(*kmsg.EndTxnRequest); ok {
		c.b.mu.Lock()
		if t := c.b.txns[r.TransactionalID]; t != nil && t.asked.IsZero() {
			t.asked = time.Now()
		}
		c.b.mu.Unlock()
	}
	if act.Delay > 0 {
		time.Sleep(act.Delay)
	}
	if act.DropPre {
		return false
	}
	c.b.mu.Lock()
	dead := c.b.dead[c.tag]
	c.b.mu.Unlock()
	if dead {
		return false
	}
	resp := c.b.process(c, req, act.Err, act.ErrPart)
	if act.Post != nil {
		act.Post()
	}
	if act.After > 0 {
		time.Sleep(act.After)
	}
	if act.DropPost {
		return false
	}
	if resp == nil { // acks=0, or the peer is gone
		return true
	}
	resp.SetVersion(ver)
	out := []byte{0, 0, 0, 0}
	out = append(out, corr...)
	if resp.IsFlexible() && key != 18 {
		out = append(out, 0)
	}
	out = resp.AppendTo(out)
	binary.BigEndian.PutUint32(out, uint32(len(out)-4))
	_, err := c.c.Write(out)
	return err == nil
}

var errNoHandler = errors.New("no handler")

func (b *Broker) process(c *conn, req kmsg.Request, ferr int16, part int) kmsg.Response {
	switch r := req.(type) {
	case *kmsg.ApiVersionsRequest:
		resp := r.ResponseKind().(*kmsg.ApiVersionsResponse)
		for k, v := range versions {
			ak := kmsg.NewApiVersionsResponseApiKey()
			ak.ApiKey, ak.MaxVersion = k, v
			resp.ApiKeys = append(resp.ApiKeys, ak)
		}
		return resp
	case *kmsg.MetadataRequest:
		return b.metadata(r, ferr)
	case *kmsg.CreateTopicsRequest:
		return b.createTopics(r, ferr)
	case *kmsg.DeleteTopicsRequest:
		return b.deleteTopics(r)
	case *kmsg.InitProducerIDRequest:
		return b.initPID(c, r, ferr)
	case *kmsg.AddPartitionsToTxnRequest:
		return b.addPartitions(c, r, ferr)
	case *kmsg.ProduceRequest:
		return b.produce(c, r, ferr)
	case *kmsg.EndTxnRequest:
		return b.endTxn(c, r, ferr)
	case *kmsg.FetchRequest:
		return b.fetch(c, r, ferr, part)
	case *kmsg.ListOffsetsRequest:
		return b.listOffsets(r)
	case *kmsg.FindCoordinatorRequest:
		resp := r.ResponseKind().(*kmsg.FindCoordinatorResponse)
		resp.NodeID, resp.Host, resp.Port = 1, b.Name+"-1", 9092
		return resp
	case *kmsg.JoinGroupRequest:
		return b.join(c, r)
	case *kmsg.SyncGroupRequest:
		return b.syncGroup(c, r)
	case *kmsg.HeartbeatRequest:
		return b.heartbeat(r)
	case *kmsg.LeaveGroupRequest:
		return b.leave(r)
	case *kmsg.OffsetFetchRequest:
		return b.offsetFetch(r)
	case *kmsg.OffsetCommitRequest:
		return b.offsetCommit(r)
	case *kmsg.DescribeGroupsRequest:
		return b.describeGroups(r)
	}
	panic(fmt.Sprintf("stand-in broker: no handler for %s", kmsg.NameForKey(req.Key())))
}

func (b *Broker) metadata(r *kmsg.MetadataRequest, ferr int16) kmsg.Response {
	b.mu.Lock()
	defer b.mu.Unlock()
	resp := r.ResponseKind().(*kmsg.MetadataResponse)
	for i := int32(1); i <= b.nBroker; i++ {
		mb := kmsg.NewMetadataResponseBroker()
		mb.NodeID, mb.Host, mb.Port = i, fmt.Sprintf("%s-%d", b.Name, i), 9092
		resp.Brokers = append(resp.Brokers, mb)
	}
	resp.ControllerID = 1
	resp.ClusterID = kmsg.StringPtr(b.Name)
	names := []string{}
	if r.Topics == nil {
		for n := range b.topics {
			names = append(names, n)
		}
	} else {
		for _, t := range r.Topics {
			names = append(names, *t.Topic)
		}
	}
	sort.Strings(names)
	for _, n := range names {
		mt := kmsg.NewMetadataResponseTopic()
		mt.Topic = kmsg.StringPtr(n)
		t, ok := b.topics[n]
		if ferr != 0 {
			mt.ErrorCode = ferr
		} else if !ok {
			mt.ErrorCode = errUnknownTopic
		} else {
			for _, p := range t.Parts {
				mp := kmsg.NewMetadataResponseTopicPartition()
				mp.Partition, mp.Leader, mp.LeaderEpoch = p.ID, 1+p.ID%b.nBroker, -1
				for k := 0; k < t.RF; k++ {
					mp.Replicas = append(mp.Replicas, int32(k+1))
				}
				mp.ISR = mp.Replicas
				mt.Partitions = append(mt.Partitions, mp)
			}
		}
		resp.Topics = append(resp.Topics, mt)
	}
	return resp
}

func (b *Broker) createTopics(r *kmsg.CreateTopicsRequest, ferr int16) kmsg.Response {
	b.mu.Lock()
	defer b.mu.Unlock()
	resp := r.ResponseKind().(*kmsg.CreateTopicsResponse)
	for _, t := range r.Topics {
		rt := kmsg.NewCreateTopicsResponseTopic()
		rt.Topic = t.Topic
		switch {
		case ferr != 0:
			rt.ErrorCode = ferr
		case b.topics[t.Topic] != nil:
			rt.ErrorCode = errTopicExists
		case t.Topic == "":
			rt.ErrorCode = 17 // INVALID_TOPIC_EXCEPTION
		case t.NumPartitions == 0 || t.NumPartitions < -1:
			rt.ErrorCode = errInvalidPartitions
		case t.ReplicationFactor == 0 || t.ReplicationFactor < -1 || int32(t.ReplicationFactor) > b.nBroker:
			rt.ErrorCode = 38 // INVALID_REPLICATION_FACTOR
		default:
			cfg := map[string]string{}
			for _, c := range t.Configs {
				if c.Value != nil {
					cfg[c.Name] = *c.Value
				}
			}
			n := int(t.NumPartitions)
			if n == -1 {
				n = 1
			}
			rf := int(t.ReplicationFactor)
			if rf == -1 {
				rf = 1
			}
			b.createTopic(t.Topic, n, rf, cfg)
			b.rec(Event{"ev": "create", "topic": t.Topic, "n": n, "rf": rf, "cfg": cfg})
		}
		resp.Topics = append(resp.Topics, rt)
	}
	b.broadcast()
	return resp
}

func (b *Broker) deleteTopics(r *kmsg.DeleteTopicsRequest) kmsg.Response {
	b.mu.Lock()
	defer b.mu.Unlock()
	resp := r.ResponseKind().(*kmsg.DeleteTopicsResponse)
	for _, n := range r.TopicNames {
		rt := kmsg.NewDeleteTopicsResponseTopic()
		nn := n
		rt.Topic = &nn
		if b.topics[n] == nil {
			rt.ErrorCode = errUnknownTopic
		} else {
			delete(b.topics, n)
			b.rec(Event{"ev": "delete", "topic": n})
		}
		resp.Topics = append(resp.Topics, rt)
	}
	return resp
}

func (b *Broker) initPID(c *conn, r *kmsg.InitProducerIDRequest, ferr int16) kmsg.Response {
	b.mu.Lock()
	defer b.mu.Unlock()
	if b.dead[c.tag] {
		return nil
	}
	resp := r.ResponseKind().(*kmsg.InitProducerIDResponse)
	if ferr != 0 {
		resp.ErrorCode = ferr
		return resp
	}
	if r.TransactionalID == nil {
		b.nextPID++
		b.pids[b.nextPID] = &pidState{}
		resp.ProducerID, resp.ProducerEpoch = b.nextPID, 0
		return resp
	}
	t := b.txns[*r.TransactionalID]
	if t == nil {
		b.nextPID++
		t = &txn{id: *r.TransactionalID, pid: b.nextPID, epoch: -1, parts: map[*Part]bool{}, tag: c.tag}
		b.txns[t.id] = t
		b.pids[t.pid] = &pidState{txnID: t.id}
	} else if r.Version >= 3 && r.ProducerID >= 0 && (r.ProducerID != t.pid || r.ProducerEpoch != t.epoch) {
		resp.ErrorCode = errInvalidEpoch
		return resp
	}
	if t.open {
		b.finish(t, false, "init")
	}
	t.epoch++
	b.pids[t.pid].epoch = t.epoch
	t.timeout = time.Duration(r.TransactionTimeoutMillis) * time.Millisecond
	resp.ProducerID, resp.ProducerEpoch = t.pid, t.epoch
	return resp
}

func (b *Broker) txnCheck(id string, pid int64, epoch int16) (*txn, int16) {
	t := b.txns[id]
	if t == nil || t.pid != pid {
		return nil, errInvalidPidMapping
	}
	if t.epoch != epoch {
		return nil, errInvalidEpoch
	}
	return t, 0
}

func (b *Broker) addPartitions(c *conn, r *kmsg.AddPartitionsToTxnRequest, ferr int16) kmsg.Response {
	b.mu.Lock()
	defer b.mu.Unlock()
	if b.dead[c.tag] {
		return nil
	}
	resp := r.ResponseKind().(*kmsg.AddPartitionsToTxnResponse)
	t, code := b.txnCheck(r.TransactionalID, r.ProducerID, r.ProducerEpoch)
	if ferr != 0 {
		code = ferr
	}
	for _, rt := range r.Topics {
		ot := kmsg.NewAddPartitionsToTxnResponseTopic()
		ot.Topic = rt.Topic
		for _, p := range rt.Partitions {
			op := kmsg.NewAddPartitionsToTxnResponseTopicPartition()
			op.Partition = p
			op.ErrorCode = code
			tt := b.topics[rt.Topic]
			if code == 0 && (tt == nil || int(p) >= len(tt.Parts)) {
				op.ErrorCode = errUnknownTopic
			} else if code == 0 {
				if !t.open {
					t.open = true
					t.asked = time.Time{}
					t.n++
					n := t.n
					t.timer = time.AfterFunc(t.timeout, func() {
						b.mu.Lock()
						defer b.mu.Unlock()
						if t.open && t.n == n {
							t.epoch++ // fence the producer
							b.pids[t.pid].epoch = t.epoch
							b.finish(t, false, "timeout")
						}
					})
					b.rec(Event{"ev": "begin", "txn": t.id, "n": t.n, "tag": t.tag})
				}
				t.parts[tt.Parts[p]] = true
			}
			ot.Partitions = append(ot.Partitions, op)
		}
		resp.Topics = append(resp.Topics, ot)
	}
	return resp
}

func (b *Broker) finish(t *txn, commit bool, why string) {
	t.open = false
	t.last = 2
	if commit {
		t.last = 1
	}
	if t.timer != nil {
		t.timer.Stop()
	}
	b.rec(Event{"ev": "end", "txn": t.id, "n": t.n, "commit": commit, "why": why, "tag": t.tag, "asked": t.asked})
	for p := range t.parts {
		typ := byte(0)
		if commit {
			typ = 1
		}
		bt := &Batch{PID: t.pid, Epoch: t.epoch, FirstSeq: -1, Txn: true, Control: true, Commit: commit, Recs: []Rec{{
			Key: []byte{0, 0, 0, typ}, Value: []byte{0, 0, 0, 0, 0, 0}, Ts: time.Now().UnixMilli()}}}
		bt.Base = p.HW
		bt.Last = p.HW
		bt.Recs[0].Offset = p.HW
		p.HW++
		p.Batches = append(p.Batches, bt)
		if f, ok := p.open[t.pid]; ok {
			if !commit {
				p.aborted = append(p.aborted, abortedTxn{t.pid, f, bt.Base})
			}
			delete(p.open, t.pid)
		}
	}
	t.parts = map[*Part]bool{}
	b.broadcast()
}

func (b *Broker) endTxn(c *conn, r *kmsg.EndTxnRequest, ferr int16) kmsg.Response {
	b.mu.Lock()
	defer b.mu.Unlock()
	if b.dead[c.tag] {
		return nil
	}
	resp := r.ResponseKind().(*kmsg.EndTxnResponse)
	t, code := b.txnCheck(r.TransactionalID, r.ProducerID, r.ProducerEpoch)
	if ferr != 0 {
		code = ferr
	}
	if code == 0 && !t.open {
		if (r.Commit && t.last == 1) || (!r.Commit && t.last == 2) {
			return resp // a repeated request is answered alike
		}
		code = errInvalidTxnState
	}
	resp.ErrorCode = code
	if code == 0 {
		b.finish(t, r.Commit, "client")
	}
	return resp
}

func (b *Broker) produce(c *conn, r *kmsg.ProduceRequest, ferr int16) kmsg.Response {
	b.mu.Lock()
	defer b.mu.Unlock()
	if b.dead[c.tag] {
		return nil
	}
	resp := r.ResponseKind().(*kmsg.ProduceResponse)
	for _, rt := range r.Topics {
		ot := kmsg.NewProduceResponseTopic()
		ot.Topic = rt.Topic
		for _, rp := range rt.Partitions {
			op := kmsg.NewProduceResponseTopicPartition()
			op.Partition = rp.Partition
			op.ErrorCode, op.BaseOffset = b.producePart(c, r, rt.Topic, rp, ferr)
			ot.Partitions = append(ot.Partitions, op)
		}
		resp.Topics = append(resp.Topics, ot)
	}
	if r.Acks == 0 {
		return nil
	}
	return resp
}

func (b *Broker) producePart(c *conn, r *kmsg.ProduceRequest, topic string, rp kmsg.ProduceRequestTopicPartition, ferr int16) (int16, int64) {
	t := b.topics[topic]
	if ferr != 0 {
		return ferr, -1
	}
	if t == nil || int(rp.Partition) >= len(t.Parts) {
		return errUnknownTopic, -1
	}
	p := t.Parts[rp.Partition]
	if len(rp.Records) == 0 {
		return errInvalidRecord, -1 // the client failed the batch while it wrote the request
	}
	bt, err := decodeBatch(rp.Records)
	if err != nil {
		if strings.HasPrefix(err.Error(), "malformed request") {
			panic(err.Error())
		}
		panic("stand-in broker: " + err.Error())
	}
	txnID := ""
	if bt.PID >= 0 {
		ps := b.pids[bt.PID]
		if ps == nil {
			return errInvalidPidMapping, -1
		}
		if ps.epoch != bt.Epoch {
			return errInvalidEpoch, -1
		}
		if bt.Txn {
			tx := b.txns[ps.txnID]
			if tx == nil || !tx.open || !tx.parts[p] {
				return errInvalidTxnState, -1
			}
			txnID = tx.id
		}
		ss := p.seqs[bt.PID]
		if ss == nil || ss.epoch != bt.Epoch {
			ss = &seqState{epoch: bt.Epoch}
			p.seqs[bt.PID] = ss
			if bt.FirstSeq != 0 {
				return errOutOfOrderSeq, -1
			}
		}
		for _, l := range ss.last {
			if l[0] == int64(bt.FirstSeq) && l[1] == int64(len(bt.Recs)) {
				return 0, l[2]
			}
		}
		if n := len(ss.last); n > 0 {
			if want := ss.last[n-1][0] + ss.last[n-1][1]; want != int64(bt.FirstSeq) {
				return errOutOfOrderSeq, -1
			}
		}
		if bt.Txn {
			if _, ok := p.open[bt.PID]; !ok {
				p.open[bt.PID] = p.HW
			}
		}
		base := b.append(p, bt, c.tag, txnID)
		ss.last = append(ss.last, [3]int64{int64(bt.FirstSeq), int64(len(bt.Recs)), base})
		if len(ss.last) > 5 {
			ss.last = ss.last[1:]
		}
		return 0, base
	}
	return 0, b.append(p, bt, c.tag, "")
}

func (b *Broker) fetch(c *conn, r *kmsg.FetchRequest, ferr int16, part int) kmsg.Response {
	deadline := time.Now().Add(time.Duration(r.MaxWaitMillis) * time.Millisecond)
	timer := time.NewTimer(time.Duration(r.MaxWaitMillis) * time.Millisecond)
	defer timer.Stop()
	for {
		b.mu.Lock()
		resp, n, bad := b.tryFetch(c.tag, r, ferr, part)
		ch := b.change
		b.mu.Unlock()
		if n > 0 || bad || !time.Now().Before(deadline) {
			return resp
		}
		select {
		case <-ch:
		case <-timer.C:
		}
	}
}

func (b *Broker) tryFetch(tag string, r *kmsg.FetchRequest, ferr int16, part int) (kmsg.Response, int, bool) {
	resp := r.ResponseKind().(*kmsg.FetchResponse)
	total, bad := 0, false
	for _, rt := range r.Topics {
		ot := kmsg.NewFetchResponseTopic()
		ot.Topic = rt.Topic
		for _, rp := range rt.Partitions {
			op := kmsg.NewFetchResponseTopicPartition()
			op.Partition = rp.Partition
			op.PreferredReadReplica = -1
			t := b.topics[rt.Topic]
			switch {
			case ferr != 0 && (part == 0 || part == int(rp.Partition)+1):
				op.ErrorCode = ferr
				bad = part == 0 // else together with the records of other partitions, or when the wait is over
			case t == nil || int(rp.Partition) >= len(t.Parts):
				op.ErrorCode = errUnknownTopic
				bad = true
			default:
				p := t.Parts[rp.Partition]
				end := p.HW
				if r.IsolationLevel == 1 {
					end = p.lso()
				}
				op.HighWatermark, op.LastStableOffset = p.HW, p.lso()
				if p.reads == nil {
					p.reads = map[string]lastRead{}
				}
				p.reads[tag] = lastRead{rp.FetchOffset, time.Now()}
				if rp.FetchOffset > p.HW || rp.FetchOffset < 0 {
					op.ErrorCode = errOffsetOutOfRange
					bad = true
					break
				}
				var last int64 = -1
				for _, bt := range p.Batches {
					if bt.Last < rp.FetchOffset {
						continue
					}
					if bt.Base >= end {
						break
					}
					if len(op.RecordBatches) > 0 && len(op.RecordBatches) > int(rp.PartitionMaxBytes) {
						break
					}
					op.RecordBatches = append(op.RecordBatches, bt.encode()...)
					last = bt.Last
				}
				if r.IsolationLevel == 1 && last >= 0 {
					for _, a := range p.aborted {
						if a.last >= rp.FetchOffset && a.first <= last {
							x := kmsg.NewFetchResponseTopicPartitionAbortedTransaction()
							x.ProducerID, x.FirstOffset = a.pid, a.first
							op.AbortedTransactions = append(op.AbortedTransactions, x)
						}
					}
				}
				total += len(op.RecordBatches)
			}
			ot.Partitions = append(ot.Partitions, op)
		}
		resp.Topics = append(resp.Topics, ot)
	}
	return resp, total, bad
}

func (b *Broker) listOffsets(r *kmsg.ListOffsetsRequest) kmsg.Response {
	b.mu.Lock()
	defer b.mu.Unlock()
	resp := r.ResponseKind().(*kmsg.ListOffsetsResponse)
	for _, rt := range r.Topics {
		ot := kmsg.NewListOffsetsResponseTopic()
		ot.Topic = rt.Topic
		for _, rp := range rt.Partitions {
			op := kmsg.NewListOffsetsResponseTopicPartition()
			op.Partition = rp.Partition
			t := b.topics[rt.Topic]
			if t == nil || int(rp.Partition) >= len(t.Parts) {
				op.ErrorCode = errUnknownTopic
			} else {
				p := t.Parts[rp.Partition]
				op.LeaderEpoch = -1
				switch rp.Timestamp {
				case -2:
					op.Offset = 0
				default:
					op.Offset = p.HW
					if r.IsolationLevel == 1 {
						op.Offset = p.lso()
					}
				}
			}
			ot.Partitions = append(ot.Partitions, op)
		}
		resp.Topics = append(resp.Topics, ot)
	}
	return resp
}
