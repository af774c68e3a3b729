package operations

import (
	zz "github.com/nanobus/iota/go/internal/zzverif"
)

func zzName(n string) string {
	s := zz.Str(n)
	zz.Assume(len(s) < 1<<16)
	return s
}

func zzOp(i int) Operation {
	ns, op := "ns0", "op0"
	if i > 0 {
		ns, op = "ns1", "op1"
	}
	return Operation{Index: zz.Any[uint32]("index"), Type: RequestType(zz.Any[uint8]("type")), Direction: Direction(zz.Any[uint8]("dir")),
		Namespace: zzName(ns), Operation: zzName(op)}
}

func zzTable(n int) {
	t := Table{}
	for i := 0; i < n; i++ {
		t = append(t, zzOp(i))
	}
	b := t.ToBytes()
	g, err := FromBytes(b)
	zz.Assert(err == nil, "a table that was written is refused")
	zz.Assert(len(g) == n, "a table loses or gains operations")
	for i := range g {
		zz.Assert(g[i].Index == t[i].Index, "an operation index is changed")
		zz.Assert(g[i].Type == t[i].Type, "an operation type is changed")
		zz.Assert(g[i].Direction == t[i].Direction, "an operation direction is changed")
		zz.Assert(g[i].Namespace == t[i].Namespace, "a namespace is changed")
		zz.Assert(g[i].Operation == t[i].Operation, "an operation name is changed")
	}
	zz.Reach("end")
}

func zzScenario_C13_roundtrip0() { zzTable(0) }
func zzScenario_C13_roundtrip1() { zzTable(1) }
func zzScenario_C13_roundtrip2() { zzTable(2) }
func zzThorough_C13_roundtrip3() { zzTable(3) }

// Any bytes are read without a panic or an allocation out of proportion.
func zzScenario_C13_any() {
	b := zz.Bytes("table")
	zz.Assume(uint64(len(b)) < 1<<31)
	zz.AllocBound(len(b))
	t, err := FromBytes(b)
	if err == nil {
		zz.Assert(12*len(t)+10 <= len(b), "a table that is too short is accepted")
		zz.Assert(b[0] == 0 && b[1] == 'w' && b[2] == 'r' && b[3] == 's', "what is not a table is accepted")
		zz.Assert(b[4] == 0 && b[5] == 1, "a table of an unknown version is accepted")
	}
	zz.Reach("end")
}

// A table cut anywhere is refused.
func zzScenario_C13_cut() {
	t := Table{zzOp(0)}
	b := t.ToBytes()
	n := zz.Int(0, len(b)-1)
	_, err := FromBytes(b[:n])
	zz.Assert(err != nil, "a table that is cut short is accepted")
	zz.Reach("end")
}

// The layout other implementations read.
func zzScenario_C13_layout() {
	o := zzOp(0)
	b := Table{o}.ToBytes()
	n, m := len(o.Namespace), len(o.Operation)
	zz.Assert(len(b) == 22+n+m, "a table has another length than the format")
	zz.Assert(b[0] == 0 && b[1] == 'w' && b[2] == 'r' && b[3] == 's' && b[4] == 0 && b[5] == 1, "a table does not begin with its magic and version")
	zz.Assert(b[6] == 0 && b[7] == 0 && b[8] == 0 && b[9] == 1, "the number of operations is not 32 bits, big endian")
	zz.Assert(b[10] == byte(o.Type) && b[11] == byte(o.Direction), "type and direction are misplaced")
	zz.Assert(b[12] == byte(o.Index>>24) && b[13] == byte(o.Index>>16) && b[14] == byte(o.Index>>8) && b[15] == byte(o.Index), "the index is not 32 bits, big endian")
	zz.Assert(b[16] == byte(n>>8) && b[17] == byte(n), "the namespace length is not 16 bits, big endian")
	zz.Assert(b[18+n] == byte(m>>8) && b[19+n] == byte(m), "the name length is not 16 bits, big endian")
	zz.Assert(b[20+n+m] == 0 && b[21+n+m] == 0, "the reserved length is not zero")
	zz.Reach("end")
}

// Reserved bytes of later versions are skipped.
func zzScenario_C13_reserved() {
	r := zz.Bytes("reserved")
	zz.Assume(len(r) < 1<<16)
	b := []byte{0, 'w', 'r', 's', 0, 1, 0, 0, 0, 2,
		1, 1, 0, 0, 0, 7, 0, 1, 'n', 0, 1, 'o', byte(len(r) >> 8), byte(len(r))}
	b = append(b, r...)
	b = append(b, 2, 2, 0, 0, 0, 8, 0, 1, 'm', 0, 1, 'p', 0, 0)
	t, err := FromBytes(b)
	zz.Assert(err == nil && len(t) == 2, "a table with reserved bytes is refused")
	zz.Assert(t[0] == Operation{7, 1, 1, "n", "o"} && t[1] == Operation{8, 2, 2, "m", "p"}, "reserved bytes shift what follows")
	zz.Reach("end")
}
