package broker

import (
	"encoding/binary"
	"fmt"
	"hash/crc32"

	"github.com/twmb/franz-go/pkg/kmsg"
)

// Rec is one decoded record held by the broker.
type Rec struct {
	Offset  int64
	Key     []byte
	Value   []byte
	Headers []kmsg.Header
	Ts      int64
}

// Batch is one stored record batch. Raw bytes are rebuilt on compaction.
type Batch struct {
	Base, Last int64
	PID        int64
	Epoch      int16
	FirstSeq   int32
	Txn        bool
	Control    bool
	Commit     bool // for control batches
	Recs       []Rec
	raw        []byte
}

var crcTable = crc32.MakeTable(crc32.Castagnoli)

func uvarintZ(v int64) []byte {
	var b [10]byte
	n := binary.PutVarint(b[:], v)
	return b[:n]
}

func encodeRecord(base int64, firstTs int64, r *Rec) []byte {
	var body []byte
	body = append(body, 0)
	body = append(body, uvarintZ(r.Ts-firstTs)...)
	body = append(body, uvarintZ(r.Offset-base)...)
	ab := func(x []byte) {
		if x == nil {
			body = append(body, uvarintZ(-1)...)
			return
		}
		body = append(body, uvarintZ(int64(len(x)))...)
		body = append(body, x...)
	}
	ab(r.Key)
	ab(r.Value)
	body = append(body, uvarintZ(int64(len(r.Headers)))...)
	for _, h := range r.Headers {
		body = append(body, uvarintZ(int64(len(h.Key)))...)
		body = append(body, h.Key...)
		ab(h.Value)
	}
	return append(uvarintZ(int64(len(body))), body...)
}

func (b *Batch) encode() []byte {
	if b.raw != nil {
		return b.raw
	}
	var first, max int64
	if len(b.Recs) > 0 {
		first = b.Recs[0].Ts
	}
	for i := range b.Recs {
		if b.Recs[i].Ts > max {
			max = b.Recs[i].Ts
		}
	}
	var attr int16
	if b.Txn {
		attr |= 0x10
	}
	if b.Control {
		attr |= 0x20
	}
	var recs []byte
	for i := range b.Recs {
		recs = append(recs, encodeRecord(b.Base, first, &b.Recs[i])...)
	}
	be := binary.BigEndian
	out := make([]byte, 61, 61+len(recs))
	be.PutUint64(out[0:], uint64(b.Base))
	be.PutUint32(out[8:], uint32(49+len(recs)))
	be.PutUint32(out[12:], 0) // leader epoch
	out[16] = 2
	be.PutUint16(out[21:], uint16(attr))
	be.PutUint32(out[23:], uint32(b.Last-b.Base))
	be.PutUint64(out[27:], uint64(first))
	be.PutUint64(out[35:], uint64(max))
	be.PutUint64(out[43:], uint64(b.PID))
	be.PutUint16(out[51:], uint16(b.Epoch))
	be.PutUint32(out[53:], uint32(b.FirstSeq))
	be.PutUint32(out[57:], uint32(len(b.Recs)))
	out = append(out, recs...)
	be.PutUint32(out[17:], crc32.Checksum(out[21:], crcTable))
	b.raw = out
	return out
}

func decodeBatch(raw []byte) (bt *Batch, err error) {
	defer func() {
		if r := recover(); r != nil {
			bt, err = nil, fmt.Errorf("malformed request: a batch of records: %v", r)
		}
	}()
	var rb kmsg.RecordBatch
	if err := rb.ReadFrom(raw); err != nil {
		return nil, fmt.Errorf("malformed request: a batch of records: %v", err)
	}
	if rb.Magic != 2 {
		return nil, fmt.Errorf("magic %d", rb.Magic)
	}
	if rb.Attributes&7 != 0 {
		return nil, fmt.Errorf("compressed batches are not supported by the stand-in broker")
	}
	b := &Batch{
		PID: rb.ProducerID, Epoch: rb.ProducerEpoch, FirstSeq: rb.FirstSequence,
		Txn: rb.Attributes&0x10 != 0,
	}
	data := rb.Records
	for i := int32(0); i < rb.NumRecords; i++ {
		l, n := binary.Varint(data)
		if n <= 0 || int(l)+n > len(data) {
			return nil, fmt.Errorf("malformed request: a short record")
		}
		body := data[n : n+int(l)]
		data = data[n+int(l):]
		body = body[1:]
		rd := func() int64 {
			v, n := binary.Varint(body)
			body = body[n:]
			return v
		}
		rb1 := func() []byte {
			l := rd()
			if l < 0 {
				return nil
			}
			x := append(make([]byte, 0, l), body[:l]...)
			body = body[l:]
			return x
		}
		r := Rec{}
		r.Ts = rb.FirstTimestamp + rd()
		r.Offset = rd()
		r.Key = rb1()
		r.Value = rb1()
		nh := rd()
		for j := int64(0); j < nh; j++ {
			k := string(rb1())
			r.Headers = append(r.Headers, kmsg.Header{Key: k, Value: rb1()})
		}
		b.Recs = append(b.Recs, r)
	}
	return b, nil
}
