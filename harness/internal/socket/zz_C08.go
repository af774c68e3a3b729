package socket

import (
	zz "github.com/nanobus/iota/go/internal/zzverif"
)

func zzIDs(s StreamID, odd uint32) {
	a, _ := s.Next()
	b, _ := s.Next()
	zz.Assert(a != 0 && b != 0, "stream zero is given to a request")
	zz.Assert(a < 1<<31 && b < 1<<31, "a stream identifier has more than 31 bits")
	zz.Assert(a&1 == odd && b&1 == odd, "a side uses the stream identifiers of the other")
	zz.Assert(a != b, "two requests in a row get the same stream")
	if a < 1<<31-2 {
		zz.Assert(b == a+2, "identifiers do not go up by two")
	} else {
		zz.Assert(b == 2-odd, "identifiers do not start over")
	}
	zz.Reach("end")
}

// zzSeed is any counter a connection can reach by sending fewer than 2^61
// requests: in any loop over the identifiers, at its end, just before its
// end, or anywhere before.
func zzSeed() uint64 {
	k := uint64(zz.Int(0, 1<<31))
	switch zz.Choice(3) {
	case 0:
		return k<<30 + (1<<30 - 1)
	case 1:
		return k<<30 + (1<<30 - 2)
	}
	return k<<30 + uint64(zz.Int(0, 1<<30-3))
}

func zzScenario_C08_client() {
	s := ClientStreamIDs(zzSeed())
	zzIDs(&s, 1)
}

func zzScenario_C08_server() {
	s := ServerStreamIDs(zzSeed())
	zzIDs(&s, 0)
}

func zzScenario_C08_start() {
	var c ClientStreamIDs
	var s ServerStreamIDs
	a, _ := c.Next()
	b, _ := s.Next()
	zz.Assert(a == 1 && b == 2, "the first stream is not the first of its side")
	zz.Reach("end")
}
