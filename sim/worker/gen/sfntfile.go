package gen

import (
	"encoding/binary"
	"sort"

	"verif/sim/worker/core"
)

// TableRec is one entry of an sfnt table directory.
type TableRec struct {
	Tag  string
	Off  uint32
	Len  uint32
	Data []byte
}

// ParseSfnt splits a well-formed sfnt file into its tables.
func ParseSfnt(data []byte) (scaler uint32, recs []TableRec) {
	if len(data) < 12 {
		core.Harness("gen: short sfnt")
	}
	scaler = binary.BigEndian.Uint32(data)
	n := int(binary.BigEndian.Uint16(data[4:]))
	for i := 0; i < n; i++ {
		e := data[12+16*i:]
		r := TableRec{Tag: string(e[:4]), Off: binary.BigEndian.Uint32(e[8:]), Len: binary.BigEndian.Uint32(e[12:])}
		if int64(r.Off)+int64(r.Len) > int64(len(data)) {
			core.Harness("gen: bad sfnt directory")
		}
		r.Data = data[r.Off : r.Off+r.Len]
		recs = append(recs, r)
	}
	return
}

// Layout options for BuildSfnt.
type FileOpt struct {
	Order []int // storage order of the tables (indices into recs)
	Gap   func() int
	NoPad bool // no padding after the last table
}

// BuildSfnt assembles a file.  The offsets in recs are updated, checksums are
// left zero (the reader ignores them).
func BuildSfnt(scaler uint32, recs []TableRec, o *FileOpt) []byte {
	n := len(recs)
	dir := make([]byte, 12+16*n)
	binary.BigEndian.PutUint32(dir, scaler)
	binary.BigEndian.PutUint16(dir[4:], uint16(n))
	order := o.Order
	if order == nil {
		for i := range recs {
			order = append(order, i)
		}
	}
	body := dir
	for k, i := range order {
		if o.Gap != nil {
			body = append(body, make([]byte, o.Gap())...)
		}
		recs[i].Off, recs[i].Len = uint32(len(body)), uint32(len(recs[i].Data))
		body = append(body, recs[i].Data...)
		for len(body)%4 != 0 && !(o.NoPad && k == n-1) {
			body = append(body, 0)
		}
	}
	idx := make([]int, n)
	for i := range idx {
		idx[i] = i
	}
	sort.Slice(idx, func(a, b int) bool { return recs[idx[a]].Tag < recs[idx[b]].Tag })
	for k, i := range idx {
		e := body[12+16*k:]
		copy(e, recs[i].Tag)
		binary.BigEndian.PutUint32(e[8:], recs[i].Off)
		binary.BigEndian.PutUint32(e[12:], recs[i].Len)
	}
	return body
}

// DataEnd returns the end of the last non-empty table of a file.
func DataEnd(data []byte) int {
	_, recs := ParseSfnt(data)
	end := 0
	for _, r := range recs {
		if r.Len > 0 {
			end = max(end, int(r.Off)+int(r.Len))
		}
	}
	return end
}

// Kern builds a legacy kern table with one or more format 0 subtables.
func Kern(c *core.C, n, subtables int) []byte {
	var t []byte
	t = append(t, 0, 0, byte(subtables>>8), byte(subtables))
	for i := 0; i < subtables; i++ {
		np := c.R(0, 5)
		type pair struct{ k, v uint32 }
		m := map[uint32]uint16{}
		var keys []uint32
		for j := 0; j < np; j++ {
			k := uint32(c.N(n))<<16 | uint32(c.N(n))
			if _, ok := m[k]; !ok {
				keys = append(keys, k)
			}
			m[k] = uint16(c.R(0, 200) - 100)
		}
		sort.Slice(keys, func(a, b int) bool { return keys[a] < keys[b] })
		np = len(keys)
		length := 14 + 6*np
		cov := 1
		if c.P(1, 4) {
			cov = c.N(16)
		}
		t = append(t, 0, 0, byte(length>>8), byte(length), 0, byte(cov))
		t = append(t, byte(np>>8), byte(np), 0, 0, 0, 0, 0, 0)
		for _, k := range keys {
			v := m[k]
			t = append(t, byte(k>>24), byte(k>>16), byte(k>>8), byte(k), byte(v>>8), byte(v))
		}
	}
	return t
}

// ParseSfntLoose is like ParseSfnt, but returns nil for files it cannot split.
func ParseSfntLoose(data []byte) (scaler uint32, recs []TableRec) {
	if len(data) < 12 || len(data) < 12+16*int(binary.BigEndian.Uint16(data[4:])) {
		return 0, nil
	}
	n := int(binary.BigEndian.Uint16(data[4:]))
	for i := 0; i < n; i++ {
		e := data[12+16*i:]
		if int64(binary.BigEndian.Uint32(e[8:]))+int64(binary.BigEndian.Uint32(e[12:])) > int64(len(data)) {
			return 0, nil
		}
	}
	return ParseSfnt(data)
}
