package sim

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"testing"
	"time"

	"github.com/aws/go-kafka-event-source/streams"
	"github.com/twmb/franz-go/pkg/kmsg"
	"verif/harness/broker"
)

// The kind "topics": CreateSource and CreateDestination against clusters where some of the topics exist already, where
// another client creates topics at the same time, and which fail; configurations which must be refused.

type topDesc struct {
	Topic string
	N, RF int
	State bool // on the state cluster
}

type topOp struct {
	Op                         string // source, dest, eoscfg
	Group, Topic, Store        string
	N, RF, Min, Commit         int
	NoCluster                  bool
	Pool, Pending, Target, Max int
	DelayUs                    int
	Pre                        []topDesc // created beforehand
	Race                       []topDesc // created by someone else when this client is about to
	Faults                     []eosOp
}

type topScn struct {
	ID      string
	Brokers int
	Split   bool // a separate cluster for the state
	Ops     []topOp
}

func init() { runners["topics"] = runTopics }

func snapTopics(bs map[string]*broker.Broker) []E {
	r := []E{}
	for _, c := range []string{"src", "state"} {
		b := bs[c]
		if b == nil {
			continue
		}
		for _, n := range b.TopicNames() {
			parts, rf, cfg, _ := b.TopicInfo(n)
			m, cp := cfg["min.insync.replicas"], cfg["cleanup.policy"]
			r = append(r, E{"c": c, "topic": n, "n": parts, "rf": rf, "min": m, "cp": cp})
		}
	}
	return r
}

func runTopics(t *testing.T, raw json.RawMessage, tr *Trace) {
	s := &topScn{Brokers: 1}
	if err := json.Unmarshal(raw, s); err != nil {
		Die("scenario: %v", err)
	}
	tr.Log(E{"ev": "cfg", "kind": "topics", "brokers": s.Brokers, "split": b2i(s.Split)})
	bs := map[string]*broker.Broker{"src": broker.New("src", s.Brokers)}
	src := &broker.Cluster{B: bs["src"], Tag: "m"}
	var state *broker.Cluster
	at := func(d topDesc) *broker.Broker {
		if d.State && s.Split {
			return bs["state"]
		}
		return bs["src"]
	}
	if s.Split {
		bs["state"] = broker.New("state", s.Brokers)
		state = &broker.Cluster{B: bs["state"], Tag: "m"}
	}
	for _, op := range s.Ops {
		for _, d := range op.Pre {
			at(d).CreateTopic(d.Topic, d.N, d.RF, map[string]string{"min.insync.replicas": "1", "mark": "1"})
		}
		tr.Log(E{"ev": "topics", "when": "before", "list": snapTopics(bs)})
		mistreat := faulty(rand.New(rand.NewSource(1)), [2]int{}, op.Faults)
		for name, b := range bs {
			race := map[string]topDesc{}
			for _, d := range op.Race {
				if at(d) == b {
					race[d.Topic] = d
				}
			}
			b, name := b, name
			b.Hook = func(tag string, req kmsg.Request) broker.Action {
				if ct, ok := req.(*kmsg.CreateTopicsRequest); ok {
					for _, x := range ct.Topics {
						if d, ok := race[x.Topic]; ok {
							delete(race, x.Topic)
							if _, _, _, has := b.TopicInfo(x.Topic); !has {
								b.CreateTopic(d.Topic, d.N, d.RF, map[string]string{"min.insync.replicas": "1", "mark": "1"})
								tr.Log(E{"ev": "race", "x": E{"c": name, "topic": d.Topic, "n": d.N, "rf": d.RF, "min": "1", "cp": ""}})
							}
						}
					}
				}
				if md, ok := req.(*kmsg.MetadataRequest); ok && len(md.Topics) == 0 {
					return broker.Action{}
				}
				a := mistreat(tag, req)
				if a.Err != 0 || a.DropPre || a.DropPost {
					tr.Log(E{"ev": "mistreat", "api": kmsg.NameForKey(req.Key()), "err": a.Err})
				}
				return a
			}
		}
		tr.Log(E{"ev": "call", "op": op.Op, "group": op.Group, "topic": op.Topic, "store": op.Store, "n": op.N, "rf": op.RF, "min": op.Min, "commit": op.Commit,
			"nocluster": b2i(op.NoCluster), "pool": op.Pool, "pending": op.Pending, "target": op.Target, "max": op.Max, "delay": op.DelayUs})
		ret := E{"ev": "ret", "op": op.Op, "err": "", "n": -1, "commit": -1, "clog": "", "chg": "", "panic": 0}
		cfg := streams.EventSourceConfig{GroupId: op.Group, Topic: op.Topic, StateStoreTopic: op.Store, NumPartitions: op.N, ReplicationFactor: op.RF,
			MinInSync: op.Min, CommitLogPartitions: op.Commit, SourceCluster: src}
		if state != nil {
			cfg.StateCluster = state
		}
		if op.NoCluster {
			cfg.SourceCluster = nil
		}
		switch op.Op {
		case "source":
			so, err := streams.CreateSource(cfg)
			if err != nil {
				ret["err"] = trunc(err.Error())
			} else if so == nil {
				ret["err"] = ""
				ret["clog"] = "nil source"
			} else {
				c := so.Config()
				ret["n"], ret["commit"], ret["clog"], ret["chg"] = so.NumPartitions(), c.CommitLogPartitions, so.CommitLogTopicNameForGroupId(), so.StateStoreTopicName()
			}
		case "dest":
			d := streams.Destination{Cluster: src, DefaultTopic: op.Topic, NumPartitions: op.N, ReplicationFactor: op.RF, MinInSync: op.Min}
			res, err := streams.CreateDestination(d)
			if err != nil {
				ret["err"] = trunc(err.Error())
			} else {
				ret["n"], ret["chg"] = res.NumPartitions, res.DefaultTopic
			}
		case "eoscfg":
			cfg.EosConfig = streams.EosConfig{PoolSize: op.Pool, PendingTxnCount: op.Pending, TargetBatchSize: op.Target, MaxBatchSize: op.Max,
				BatchDelay: time.Duration(op.DelayUs) * time.Microsecond}
			func() {
				defer func() {
					if x := recover(); x != nil {
						ret["panic"], ret["err"] = 1, trunc(fmt.Sprint(x))
					}
				}()
				es, err := streams.NewEventSource(cfg, func(streams.TopicPartition) nostore { return nostore{} },
					func(*streams.EventContext[nostore], streams.IncomingRecord) streams.ExecutionState {
						return streams.Complete
					})
				if err != nil {
					ret["err"] = trunc(err.Error())
				}
				_ = es
			}()
		default:
			Die("op %q", op.Op)
		}
		tr.Log(E{"ev": "topics", "when": "after", "list": snapTopics(bs)})
		tr.Log(ret)
	}
	tr.Log(E{"ev": "quiet"})
}
