package sim

import (
	"encoding/json"
	"sort"
	"sync"
	"testing"
	"time"

	"github.com/aws/go-kafka-event-source/streams"
	"github.com/twmb/franz-go/pkg/kgo"
	"github.com/twmb/franz-go/pkg/kmsg"
)

// The kind "balance": several IncrementalRebalancers and a coordinator which takes them through rebalances step by step.
// Members join, crash, leave, finish or fail their preparations at any point. The operation "plan" hands the balancer a
// group state directly.

type balMember struct {
	M           string
	St          int
	Left        int64
	Own         []int32
	Prep, Ready []int32
	UD          string // "": as given, none, garbage
}

type balOp struct {
	Op     string // join, crash, leave, prepared, failed, reb, plan, sleep
	M      string
	P, N   int
	Ms     int
	Miss   []string // who does not get its assignment
	Crash  []string // who crashes before it gets its assignment
	Leader int
	G      []balMember
}

type balScn struct {
	ID    string
	Parts int
	Ops   []balOp
}

func init() { runners["balance"] = runBalance }

type bmem struct {
	r      *balRun
	name   string
	igr    streams.IncrementalGroupRebalancer
	owned  []int32
	todo   []int32 // being prepared
	ch     <-chan struct{}
	client *kgo.Client
}

type balRun struct {
	s   *balScn
	tr  *Trace
	mu  sync.Mutex
	ms  map[string]*bmem
	gen int32
}

func tps(ps []int32) []streams.TopicPartition {
	r := []streams.TopicPartition{}
	for _, p := range ps {
		r = append(r, streams.TopicPartition{Partition: p, Topic: srcTopic})
	}
	return r
}

func pset(ts []streams.TopicPartition) []int {
	r := []int{}
	for _, t := range ts {
		if t.Topic != srcTopic {
			r = append(r, -1)
			continue
		}
		r = append(r, int(t.Partition))
	}
	return r
}

func i32s(a []int32) []int {
	r := []int{}
	for _, x := range a {
		r = append(r, int(x))
	}
	return r
}

func (m *bmem) PrepareTopicPartition(tp streams.TopicPartition) {
	m.r.tr.Log(E{"ev": "prepare", "m": m.name, "p": pset([]streams.TopicPartition{tp})[0]})
	m.r.mu.Lock()
	m.todo = append(m.todo, tp.Partition)
	m.r.mu.Unlock()
}

func (m *bmem) ForgetPreparedTopicPartition(tp streams.TopicPartition) {
	m.r.tr.Log(E{"ev": "forget", "m": m.name, "p": pset([]streams.TopicPartition{tp})[0]})
	m.r.mu.Lock()
	defer m.r.mu.Unlock()
	for i, p := range m.todo {
		if p == tp.Partition {
			m.todo = append(m.todo[:i:i], m.todo[i+1:]...)
			return
		}
	}
}

func (m *bmem) Client() *kgo.Client { return m.client }

func (r *balRun) names() []string {
	ns := []string{}
	for n := range r.ms {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	return ns
}

func (r *balRun) join(name string) {
	if r.ms[name] != nil {
		return
	}
	cl, err := kgo.NewClient()
	if err != nil {
		Die("client: %v", err)
	}
	m := &bmem{r: r, name: name, client: cl}
	m.igr = streams.IncrementalRebalancer(m)
	r.ms[name] = m
	r.tr.Log(E{"ev": "join", "m": name})
}

func (r *balRun) crash(name string) {
	m := r.ms[name]
	if m == nil {
		return
	}
	r.tr.Log(E{"ev": "gone", "m": name})
	delete(r.ms, name)
}

func in(n string, l []string) bool {
	for _, x := range l {
		if x == n {
			return true
		}
	}
	return false
}

// plan lets the balancer of a member make the plan and logs what it was told and what it says.
func (r *balRun) plan(igr streams.IncrementalGroupRebalancer, members []kmsg.JoinGroupResponseMember, arb int) map[string][]byte {
	desc := []E{}
	for _, jm := range members {
		var md kmsg.ConsumerMemberMetadata
		if err := md.ReadFrom(jm.ProtocolMetadata); err != nil {
			r.tr.Log(E{"ev": "badmeta", "m": jm.MemberID})
			return nil
		}
		var u streams.IncrGroupMemberMeta
		json.Unmarshal(md.UserData, &u)
		own := []int{}
		for _, o := range md.OwnedPartitions {
			if o.Topic == srcTopic {
				own = append(own, i32s(o.Partitions)...)
			}
		}
		desc = append(desc, E{"m": jm.MemberID, "st": int(u.Status), "own": own, "prep": pset(u.Preparing), "ready": pset(u.Ready), "topics": md.Topics})
	}
	r.tr.Log(E{"ev": "reb", "members": desc, "arb": arb})
	mb, _, err := igr.MemberBalancer(members)
	if err != nil {
		r.tr.Log(E{"ev": "badplan", "err": trunc(err.Error())})
		return nil
	}
	var sa kgo.IntoSyncAssignment
	if eb, ok := mb.(kgo.GroupMemberBalancerOrError); ok {
		sa, err = eb.BalanceOrError(map[string]int32{srcTopic: int32(r.s.Parts)})
		if err != nil {
			r.tr.Log(E{"ev": "badplan", "err": trunc(err.Error())})
			return nil
		}
	} else {
		sa = mb.Balance(map[string]int32{srcTopic: int32(r.s.Parts)})
	}
	out := map[string][]byte{}
	asg := []E{}
	for _, a := range sa.IntoSyncAssignment() {
		out[a.MemberID] = a.MemberAssignment
		var ma kmsg.ConsumerMemberAssignment
		if err := ma.ReadFrom(a.MemberAssignment); err != nil {
			r.tr.Log(E{"ev": "badplan", "err": "assignment"})
			return nil
		}
		ps := []int{}
		for _, t := range ma.Topics {
			if t.Topic == srcTopic {
				ps = append(ps, i32s(t.Partitions)...)
			} else if len(t.Partitions) > 0 {
				ps = append(ps, -1)
			}
		}
		var ins streams.IncrGroupMemberInstructions
		json.Unmarshal(ma.UserData, &ins)
		asg = append(asg, E{"m": a.MemberID, "ps": ps, "prepare": pset(ins.Prepare), "forget": pset(ins.Forget)})
	}
	r.tr.Log(E{"ev": "plan", "plan": asg, "arb": arb})
	return out
}

// rebalance runs one generation. Returns whether everything is at rest afterwards.
func (r *balRun) rebalance(op balOp) bool {
	ns := r.names()
	if len(ns) == 0 {
		return true
	}
	r.gen++
	var members []kmsg.JoinGroupResponseMember
	for _, n := range ns {
		m := r.ms[n]
		cur := map[string][]int32{}
		if len(m.owned) > 0 {
			cur[srcTopic] = append([]int32(nil), m.owned...)
		}
		jm := kmsg.NewJoinGroupResponseMember()
		jm.MemberID = n
		jm.ProtocolMetadata = m.igr.JoinGroupMetadata([]string{srcTopic}, cur, r.gen)
		members = append(members, jm)
	}
	out := r.plan(r.ms[ns[op.Leader%len(ns)]].igr, members, 0)
	if out == nil {
		return true
	}
	for _, n := range op.Crash {
		r.crash(n)
	}
	rest := len(op.Miss) == 0 && len(op.Crash) == 0
	for _, n := range ns {
		m := r.ms[n]
		if m == nil || in(n, op.Miss) {
			continue
		}
		r.tr.Log(E{"ev": "syncing", "m": n})
		asg, err := m.igr.ParseSyncAssignment(out[n])
		ps := append([]int32(nil), asg[srcTopic]...)
		bad := err != nil
		for t, x := range asg {
			bad = bad || t != srcTopic && len(x) > 0
		}
		r.tr.Log(E{"ev": "sync", "m": n, "ps": i32s(ps), "bad": b2i(bad)})
		had := map[int32]bool{}
		for _, p := range m.owned {
			had[p] = true
		}
		var added []int32
		for _, p := range ps {
			if !had[p] {
				added = append(added, p)
			}
			delete(had, p)
		}
		if len(had) > 0 || len(added) > 0 {
			rest = false
		}
		m.owned = ps
		r.mu.Lock()
		for _, p := range added { // the preparation turns into the real thing
			for i, q := range m.todo {
				if p == q {
					m.todo = append(m.todo[:i:i], m.todo[i+1:]...)
					break
				}
			}
		}
		r.mu.Unlock()
		if len(added) > 0 {
			m.igr.PartitionsAssigned(tps(added)...)
		}
		time.Sleep(time.Millisecond) // what was started runs
		if m.ch != nil {
			select {
			case <-m.ch:
				r.tr.Log(E{"ev": "mayleave", "m": n})
				r.crash(n)
				rest = false
			default:
			}
		}
	}
	r.mu.Lock()
	for _, m := range r.ms {
		if len(m.todo) > 0 {
			rest = false
		}
	}
	r.mu.Unlock()
	return rest
}

func (r *balRun) take(name string) (*bmem, int32, bool) {
	m := r.ms[name]
	if m == nil {
		return nil, 0, false
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(m.todo) == 0 {
		return nil, 0, false
	}
	p := m.todo[0]
	m.todo = m.todo[1:]
	return m, p, true
}

func (r *balRun) prepared(name string) {
	if m, p, ok := r.take(name); ok {
		r.tr.Log(E{"ev": "prepared", "m": name, "p": p})
		m.igr.PartitionPrepared(streams.TopicPartition{Partition: p, Topic: srcTopic})
	}
}

func runBalance(t *testing.T, raw json.RawMessage, tr *Trace) {
	s := &balScn{}
	if err := json.Unmarshal(raw, s); err != nil {
		Die("scenario: %v", err)
	}
	tr.Log(E{"ev": "cfg", "kind": "balance", "n": s.Parts})
	r := &balRun{s: s, tr: tr, ms: map[string]*bmem{}}
	settle := false
	for _, op := range s.Ops {
		switch op.Op {
		case "join":
			r.join(op.M)
			settle = true
		case "crash":
			r.crash(op.M)
		case "leave":
			if m := r.ms[op.M]; m != nil {
				tr.Log(E{"ev": "leave", "m": op.M})
				m.ch = m.igr.GracefullyLeaveGroup()
			}
		case "prepared":
			r.prepared(op.M)
		case "failed":
			if m, p, ok := r.take(op.M); ok {
				tr.Log(E{"ev": "failed", "m": op.M, "p": p})
				m.igr.PartitionPreparationFailed(streams.TopicPartition{Partition: p, Topic: srcTopic})
			}
		case "reb":
			for i := 0; i <= op.N; i++ {
				r.rebalance(op)
			}
		case "cycle": // preparations succeed, rebalances follow
			for i := 0; i < op.N; i++ {
				for _, n := range r.names() {
					r.prepared(n)
				}
				r.rebalance(op)
			}
		case "sleep":
			time.Sleep(time.Duration(op.Ms) * time.Millisecond)
		case "plan":
			var members []kmsg.JoinGroupResponseMember
			for _, g := range op.G {
				md := kmsg.NewConsumerMemberMetadata()
				md.Version = 1
				md.Topics = []string{srcTopic}
				if len(g.Own) > 0 {
					o := kmsg.NewConsumerMemberMetadataOwnedPartition()
					o.Topic, o.Partitions = srcTopic, g.Own
					md.OwnedPartitions = append(md.OwnedPartitions, o)
				}
				switch g.UD {
				case "":
					md.UserData, _ = json.Marshal(streams.IncrGroupMemberMeta{Status: streams.MemberStatus(g.St), LeftAt: g.Left, Preparing: tps(g.Prep), Ready: tps(g.Ready)})
				case "garbage":
					md.UserData = []byte{0, 1, 2, 3}
				}
				jm := kmsg.NewJoinGroupResponseMember()
				jm.MemberID = g.M
				jm.ProtocolMetadata = md.AppendTo(nil)
				members = append(members, jm)
			}
			lead := &bmem{r: r, name: "leader"}
			lead.client, _ = kgo.NewClient()
			r.plan(streams.IncrementalRebalancer(lead), members, 1)
		default:
			Die("op %q", op.Op)
		}
	}
	if settle {
		tr.Log(E{"ev": "settle"})
		rest, rounds := 0, 0
		for ; rounds < 60+20*s.Parts && rest < 4; rounds++ {
			for _, n := range r.names() {
				for i := 0; i <= s.Parts; i++ {
					r.prepared(n)
				}
			}
			if r.rebalance(balOp{Leader: rounds}) {
				rest++
			} else {
				rest = 0
			}
			time.Sleep(time.Second)
		}
		tr.Log(E{"ev": "settled", "rest": rest, "rounds": rounds})
	}
	tr.Log(E{"ev": "quiet"})
}
