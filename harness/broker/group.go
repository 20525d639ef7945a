package broker

import (
	"fmt"
	"sort"
	"time"

	"github.com/twmb/franz-go/pkg/kmsg"
)

type gstate int

const (
	gEmpty gstate = iota
	gPreparing
	gCompleting
	gStable
)

type gmember struct {
	id         string
	tag        string
	protos     []kmsg.JoinGroupRequestProtocol
	session    time.Duration
	rebalance  time.Duration
	timer      *time.Timer
	tseq       int
	joinWait   chan *kmsg.JoinGroupResponse
	syncWait   chan *kmsg.SyncGroupResponse
	assignment []byte
	seq        int
}

type group struct {
	id       string
	state    gstate
	gen      int32
	proto    string
	leader   string
	members  map[string]*gmember
	timer    *time.Timer
	offsets  map[string]map[int32]int64
	prepared bool
}

func (b *Broker) group(id string) *group {
	g := b.groups[id]
	if g == nil {
		g = &group{id: id, members: map[string]*gmember{}, offsets: map[string]map[int32]int64{}}
		b.groups[id] = g
	}
	return g
}

func (b *Broker) touch(g *group, m *gmember) {
	if m.timer != nil {
		m.timer.Stop()
	}
	m.tseq++
	seq := m.tseq
	m.timer = time.AfterFunc(m.session, func() {
		b.mu.Lock()
		defer b.mu.Unlock()
		if g.members[m.id] != m || m.tseq != seq {
			return
		}
		if m.joinWait != nil { // waiting in a join: kept alive
			b.touch(g, m)
			return
		}
		b.rec(Event{"ev": "expire", "tag": m.tag, "gen": g.gen})
		b.removeMember(g, m)
	})
}

// Kick removes the members of a client from their groups, as if their session had expired.
func (b *Broker) Kick(tag string) {
	b.mu.Lock()
	defer b.mu.Unlock()
	for _, g := range b.groups {
		for _, m := range g.ordered() {
			if m.tag == tag {
				b.rec(Event{"ev": "expire", "tag": m.tag, "gen": g.gen})
				b.removeMember(g, m)
			}
		}
	}
}

func (b *Broker) removeMember(g *group, m *gmember) {
	delete(g.members, m.id)
	m.timer.Stop()
	if m.joinWait != nil {
		r := kmsg.NewPtrJoinGroupResponse()
		r.ErrorCode = errUnknownMember
		m.joinWait <- r
		m.joinWait = nil
	}
	if m.syncWait != nil {
		r := kmsg.NewPtrSyncGroupResponse()
		r.ErrorCode = errUnknownMember
		m.syncWait <- r
		m.syncWait = nil
	}
	switch g.state {
	case gStable, gCompleting:
		b.prepareRebalance(g)
	case gPreparing:
		b.maybeComplete(g)
	}
}

func (b *Broker) prepareRebalance(g *group) {
	if g.state == gCompleting {
		for _, m := range g.members {
			m.assignment = nil
			if m.syncWait != nil {
				r := kmsg.NewPtrSyncGroupResponse()
				r.ErrorCode = errRebalanceInProg
				m.syncWait <- r
				m.syncWait = nil
			}
		}
	}
	wasEmpty := g.state == gEmpty
	g.state = gPreparing
	if g.timer != nil {
		g.timer.Stop()
	}
	var d time.Duration
	for _, m := range g.members {
		if m.rebalance > d {
			d = m.rebalance
		}
	}
	if wasEmpty {
		g.prepared = false
		g.timer = time.AfterFunc(b.InitialRebalanceDelay, func() {
			b.mu.Lock()
			defer b.mu.Unlock()
			if g.state == gPreparing {
				g.prepared = true
				b.maybeComplete(g)
			}
		})
		return
	}
	g.prepared = true
	gen := g.gen
	g.timer = time.AfterFunc(d, func() {
		b.mu.Lock()
		defer b.mu.Unlock()
		if g.state == gPreparing && g.gen == gen {
			for _, m := range g.members {
				if m.joinWait == nil {
					delete(g.members, m.id)
					m.timer.Stop()
					b.rec(Event{"ev": "evict", "tag": m.tag, "gen": g.gen})
				}
			}
			b.maybeComplete(g)
		}
	})
	b.maybeComplete(g)
}

func (b *Broker) maybeComplete(g *group) {
	if g.state != gPreparing || !g.prepared {
		return
	}
	if len(g.members) == 0 {
		g.gen++
		g.state = gEmpty
		g.leader = ""
		if g.timer != nil {
			g.timer.Stop()
		}
		return
	}
	for _, m := range g.members {
		if m.joinWait == nil {
			return
		}
	}
	if g.timer != nil {
		g.timer.Stop()
	}
	g.gen++
	g.state = gCompleting
	// choose the protocol every member supports, by vote
	count := map[string]int{}
	votes := map[string]int{}
	for _, m := range g.members {
		for _, p := range m.protos {
			count[p.Name]++
		}
	}
	for _, m := range g.members {
		for _, p := range m.protos {
			if count[p.Name] == len(g.members) {
				votes[p.Name]++
				break
			}
		}
	}
	g.proto = ""
	var names []string
	for n := range votes {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if g.proto == "" || votes[n] > votes[g.proto] {
			g.proto = n
		}
	}
	ms := g.ordered()
	if _, ok := g.members[g.leader]; !ok {
		g.leader = ms[0].id
	}
	var tags []string
	for _, m := range ms {
		tags = append(tags, m.tag)
	}
	b.rec(Event{"ev": "gen", "gen": g.gen, "members": tags, "proto": g.proto, "leader": g.members[g.leader].tag, "group": g.id})
	for _, m := range ms {
		r := kmsg.NewPtrJoinGroupResponse()
		r.Generation = g.gen
		r.Protocol = kmsg.StringPtr(g.proto)
		r.LeaderID = g.leader
		r.MemberID = m.id
		if m.id == g.leader {
			for _, o := range ms {
				jm := kmsg.NewJoinGroupResponseMember()
				jm.MemberID = o.id
				for _, p := range o.protos {
					if p.Name == g.proto {
						jm.ProtocolMetadata = p.Metadata
					}
				}
				r.Members = append(r.Members, jm)
			}
		}
		m.assignment = nil
		m.joinWait <- r
		m.joinWait = nil
		b.touch(g, m)
	}
}

func (g *group) ordered() []*gmember {
	var ms []*gmember
	for _, m := range g.members {
		ms = append(ms, m)
	}
	sort.Slice(ms, func(i, j int) bool { return ms[i].seq < ms[j].seq })
	return ms
}

func sameProtos(a, b []kmsg.JoinGroupRequestProtocol) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].Name != b[i].Name || string(a[i].Metadata) != string(b[i].Metadata) {
			return false
		}
	}
	return true
}

func (b *Broker) join(c *conn, r *kmsg.JoinGroupRequest) kmsg.Response {
	b.mu.Lock()
	g := b.group(r.Group)
	id := r.MemberID
	var m *gmember
	if id == "" {
		b.memberSeq++
		id = fmt.Sprintf("member-%03d-%s", b.memberSeq, c.tag)
		m = &gmember{id: id, tag: c.tag, seq: b.memberSeq}
	} else {
		m = g.members[id]
		if m == nil {
			b.mu.Unlock()
			resp := r.ResponseKind().(*kmsg.JoinGroupResponse)
			resp.ErrorCode = errUnknownMember
			return resp
		}
	}
	isNew := g.members[id] == nil
	changed := !sameProtos(m.protos, r.Protocols)
	m.protos = r.Protocols
	m.session = time.Duration(r.SessionTimeoutMillis) * time.Millisecond
	m.rebalance = time.Duration(r.RebalanceTimeoutMillis) * time.Millisecond
	if isNew && len(g.members) > 0 {
		common := false
		for _, p := range r.Protocols {
			n := 0
			for _, o := range g.members {
				for _, q := range o.protos {
					if q.Name == p.Name {
						n++
						break
					}
				}
			}
			if n == len(g.members) {
				common = true
			}
		}
		if !common {
			b.mu.Unlock()
			resp := r.ResponseKind().(*kmsg.JoinGroupResponse)
			resp.ErrorCode = errInconsistentProto
			return resp
		}
	}
	g.members[id] = m
	if !isNew && g.state == gStable && !changed && id != g.leader {
		resp := r.ResponseKind().(*kmsg.JoinGroupResponse)
		resp.Generation, resp.LeaderID, resp.MemberID = g.gen, g.leader, id
		resp.Protocol = kmsg.StringPtr(g.proto)
		b.touch(g, m)
		b.mu.Unlock()
		return resp
	}
	if m.joinWait != nil { // an older join of the same member was superseded
		old := kmsg.NewPtrJoinGroupResponse()
		old.ErrorCode = errUnknownMember
		m.joinWait <- old
	}
	ch := make(chan *kmsg.JoinGroupResponse, 2)
	m.joinWait = ch
	b.touch(g, m)
	b.rec(Event{"ev": "join", "tag": c.tag, "gen": g.gen, "group": g.id})
	switch g.state {
	case gPreparing:
		b.maybeComplete(g)
	default:
		b.prepareRebalance(g)
	}
	b.mu.Unlock()
	resp := <-ch
	return resp
}

func (b *Broker) syncGroup(c *conn, r *kmsg.SyncGroupRequest) kmsg.Response {
	b.mu.Lock()
	g := b.group(r.Group)
	resp := r.ResponseKind().(*kmsg.SyncGroupResponse)
	m := g.members[r.MemberID]
	if m == nil {
		resp.ErrorCode = errUnknownMember
		b.mu.Unlock()
		return resp
	}
	b.touch(g, m)
	if r.Generation != g.gen {
		resp.ErrorCode = errIllegalGeneration
		b.mu.Unlock()
		return resp
	}
	switch g.state {
	case gPreparing, gEmpty:
		resp.ErrorCode = errRebalanceInProg
		b.mu.Unlock()
		return resp
	case gStable:
		resp.MemberAssignment = m.assignment
		b.mu.Unlock()
		return resp
	}
	if r.MemberID == g.leader {
		plan := map[string]map[string][]int32{}
		instr := map[string]string{}
		for _, o := range g.members {
			plan[o.tag] = map[string][]int32{}
		}
		for _, a := range r.GroupAssignment {
			if o := g.members[a.MemberID]; o != nil {
				o.assignment = a.MemberAssignment
				var cma kmsg.ConsumerMemberAssignment
				if err := cma.ReadFrom(a.MemberAssignment); err == nil {
					for _, t := range cma.Topics {
						plan[o.tag][t.Topic] = t.Partitions
					}
					instr[o.tag] = string(cma.UserData)
				}
			}
		}
		g.state = gStable
		b.rec(Event{"ev": "plan", "gen": g.gen, "plan": plan, "group": g.id, "instr": instr})
		for _, o := range g.members {
			if o.syncWait != nil {
				sr := kmsg.NewPtrSyncGroupResponse()
				sr.MemberAssignment = o.assignment
				o.syncWait <- sr
				o.syncWait = nil
			}
		}
		resp.MemberAssignment = m.assignment
		b.mu.Unlock()
		return resp
	}
	ch := make(chan *kmsg.SyncGroupResponse, 2)
	m.syncWait = ch
	b.mu.Unlock()
	return <-ch
}

func (b *Broker) heartbeat(r *kmsg.HeartbeatRequest) kmsg.Response {
	b.mu.Lock()
	defer b.mu.Unlock()
	resp := r.ResponseKind().(*kmsg.HeartbeatResponse)
	g := b.group(r.Group)
	m := g.members[r.MemberID]
	switch {
	case m == nil:
		resp.ErrorCode = errUnknownMember
	case r.Generation != g.gen:
		resp.ErrorCode = errIllegalGeneration
	default:
		b.touch(g, m)
		if g.state == gPreparing {
			resp.ErrorCode = errRebalanceInProg
		}
	}
	return resp
}

func (b *Broker) leave(r *kmsg.LeaveGroupRequest) kmsg.Response {
	b.mu.Lock()
	defer b.mu.Unlock()
	resp := r.ResponseKind().(*kmsg.LeaveGroupResponse)
	g := b.group(r.Group)
	m := g.members[r.MemberID]
	if m == nil {
		resp.ErrorCode = errUnknownMember
		return resp
	}
	b.rec(Event{"ev": "leave", "tag": m.tag, "gen": g.gen, "group": g.id})
	b.removeMember(g, m)
	return resp
}

func (b *Broker) offsetFetch(r *kmsg.OffsetFetchRequest) kmsg.Response {
	b.mu.Lock()
	defer b.mu.Unlock()
	resp := r.ResponseKind().(*kmsg.OffsetFetchResponse)
	g := b.group(r.Group)
	for _, t := range r.Topics {
		ot := kmsg.NewOffsetFetchResponseTopic()
		ot.Topic = t.Topic
		for _, p := range t.Partitions {
			op := kmsg.NewOffsetFetchResponseTopicPartition()
			op.Partition, op.Offset, op.LeaderEpoch = p, -1, -1
			if o, ok := g.offsets[t.Topic][p]; ok {
				op.Offset = o
			}
			ot.Partitions = append(ot.Partitions, op)
		}
		resp.Topics = append(resp.Topics, ot)
	}
	return resp
}

func (b *Broker) offsetCommit(r *kmsg.OffsetCommitRequest) kmsg.Response {
	b.mu.Lock()
	defer b.mu.Unlock()
	resp := r.ResponseKind().(*kmsg.OffsetCommitResponse)
	g := b.group(r.Group)
	var code int16
	if r.MemberID != "" {
		if g.members[r.MemberID] == nil {
			code = errUnknownMember
		} else if r.Generation != g.gen {
			code = errIllegalGeneration
		}
	}
	for _, t := range r.Topics {
		ot := kmsg.NewOffsetCommitResponseTopic()
		ot.Topic = t.Topic
		for _, p := range t.Partitions {
			op := kmsg.NewOffsetCommitResponseTopicPartition()
			op.Partition, op.ErrorCode = p.Partition, code
			if code == 0 {
				if g.offsets[t.Topic] == nil {
					g.offsets[t.Topic] = map[int32]int64{}
				}
				g.offsets[t.Topic][p.Partition] = p.Offset
				b.rec(Event{"ev": "groupcommit", "topic": t.Topic, "p": p.Partition, "o": p.Offset, "group": g.id})
			}
			ot.Partitions = append(ot.Partitions, op)
		}
		resp.Topics = append(resp.Topics, ot)
	}
	return resp
}

// SetGroupOffset sets a committed group offset directly.
func (b *Broker) SetGroupOffset(group, topic string, p int32, o int64) {
	b.mu.Lock()
	defer b.mu.Unlock()
	g := b.group(group)
	if g.offsets[topic] == nil {
		g.offsets[topic] = map[int32]int64{}
	}
	g.offsets[topic][p] = o
}

// GroupOffset reads the committed group offset.
func (b *Broker) GroupOffset(group, topic string, p int32) int64 {
	b.mu.Lock()
	defer b.mu.Unlock()
	if o, ok := b.group(group).offsets[topic][p]; ok {
		return o
	}
	return -1
}

// GroupMembers lists the tags of the current members.
func (b *Broker) GroupMembers(group string) (tags []string, stable bool) {
	b.mu.Lock()
	defer b.mu.Unlock()
	g := b.group(group)
	for _, m := range g.ordered() {
		tags = append(tags, m.tag)
	}
	return tags, g.state == gStable
}

func (b *Broker) describeGroups(r *kmsg.DescribeGroupsRequest) kmsg.Response {
	b.mu.Lock()
	defer b.mu.Unlock()
	resp := r.ResponseKind().(*kmsg.DescribeGroupsResponse)
	for _, id := range r.Groups {
		g := b.group(id)
		og := kmsg.NewDescribeGroupsResponseGroup()
		og.Group = id
		og.ProtocolType = "consumer"
		og.State = [...]string{"Empty", "PreparingRebalance", "CompletingRebalance", "Stable"}[g.state]
		if g.state == gStable || g.state == gCompleting {
			og.Protocol = g.proto
		}
		for _, m := range g.ordered() {
			om := kmsg.NewDescribeGroupsResponseGroupMember()
			om.MemberID, om.MemberAssignment = m.id, m.assignment
			for _, p := range m.protos {
				if p.Name == g.proto {
					om.ProtocolMetadata = p.Metadata
				}
			}
			og.Members = append(og.Members, om)
		}
		resp.Groups = append(resp.Groups, og)
	}
	return resp
}
