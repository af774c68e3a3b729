package customsections

import (
	"github.com/tetratelabs/wabin/wasm"

	"github.com/nanobus/iota/go/internal/zzstd"
	zz "github.com/nanobus/iota/go/internal/zzverif"
)

var zzHeader = []byte{0, 'a', 's', 'm', 1, 0, 0, 0}

// zzSize is a size as written in a module.
func zzSize(n int) []byte {
	switch zz.Choice(3) {
	case 0:
		zz.Assume(n < 0x80)
		return []byte{byte(n)}
	case 1:
		zz.Assume(n < 0x4000)
		return []byte{byte(n&0x7f) | 0x80, byte(n >> 7)}
	}
	zz.Assume(n < 1<<28)
	return []byte{byte(n&0x7f) | 0x80, byte(n>>7&0x7f) | 0x80, byte(n>>14&0x7f) | 0x80, byte(n >> 21)}
}

func zzSection(id byte, content []byte) []byte {
	b := append([]byte{id}, zzSize(len(content))...)
	return append(b, content...)
}

func zzCustom(name string, data []byte, padded bool) []byte {
	size := []byte{byte(len(name))}
	if padded {
		size = zzSize(len(name))
	}
	content := append(size, name...)
	return zzSection(0, append(content, data...))
}

// The custom sections asked for are given as they are in the module.
func zzRead(n int) {
	names := []string{"apex", "wanted", "other"}
	data := append([]byte(nil), zzHeader...)
	want := map[string][]byte{}
	for i := 0; i < n; i++ {
		content := zz.Bytes("content")
		zz.Assume(len(content) < 1<<20)
		k := zz.Choice(4)
		if k < 3 {
			data = append(data, zzCustom(names[k], content, n == 1)...)
			if k < 2 {
				want[names[k]] = content
			}
		} else {
			id := byte(zz.Int(1, 255))
			data = append(data, zzSection(id, content)...)
		}
	}
	got, err := Read(data, "apex", "wanted")
	zz.Assert(err == nil, "a module is refused")
	zz.Assert(len(got) == len(want), "sections are missing or were not asked for")
	for k, w := range want {
		s, ok := got[k]
		zz.Assert(ok && s != nil, "a section is missing")
		if ok && s != nil {
			zz.Assert(s.Name == k, "a section has another name")
			zz.Assert(len(s.Data) == len(w) && (len(w) == 0 || zz.Same(s.Data, w)), "a section has other contents")
		}
	}
	zz.Reach("end")
}

func zzScenario_C31_none() { zzRead(0) }
func zzScenario_C31_one()  { zzRead(1) }
func zzThorough_C31_two()  { zzRead(2) }

// Any bytes are read or refused.
func zzLater_C31_any() {
	zzstd.AnyVarint()
	data := zz.Bytes("module")
	zz.Assume(uint64(len(data)) < 1<<31)
	zz.AllocBound(len(data) + 16)
	got, err := Read(data, "apex")
	zz.Assert(err != nil || len(data) >= 8, "what is too short for a module is accepted")
	zz.Assert(err == nil || got == nil, "sections are given though the module is refused")
	zz.Reach("end")
}

// What is cut within a section is refused.
func zzLater_C31_cut() {
	content := zz.Bytes("content")
	zz.Assume(len(content) < 1<<20)
	name := []string{"apex", "other"}[zz.Choice(2)]
	var s []byte
	if zz.Choice(2) == 0 {
		s = zzCustom(name, content, false)
	} else {
		s = zzSection(byte(zz.Int(1, 255)), content)
	}
	cut := zz.Int(1, 1<<30)
	zz.Assume(cut < len(s))
	data := append(append([]byte(nil), zzHeader...), s[:cut]...)
	_, err := Read(data, "apex")
	zz.Assert(err != nil, "a module that was cut is accepted")
	zz.Reach("end")
}

// What does not begin as a module is refused.
func zzScenario_C31_header() {
	data := append([]byte(nil), zzHeader...)
	k := zz.Choice(9)
	if k == 8 {
		data = data[:zz.Choice(8)]
	} else if zz.Choice(2) == 0 {
		data[k] = byte(zz.Int(int(zzHeader[k])+1, 255))
	} else {
		zz.Assume(zzHeader[k] > 0)
		data[k] = byte(zz.Int(0, int(zzHeader[k])-1))
	}
	got, err := Read(data)
	zz.Assert(err != nil && got == nil, "what is not a module is accepted")
	zz.Reach("end")
}

// A section whose name is longer than the section is refused.
func zzScenario_C31_name() {
	name := "apex"
	size := zz.Int(0, 4)
	data := append(append([]byte(nil), zzHeader...), 0, byte(size), 4)
	data = append(data, name...)
	data = append(data, zz.Bytes("rest")...)
	zz.Assume(len(data) < 1<<20)
	_, err := Read(data, "apex")
	zz.Assert(err != nil, "a section shorter than its name is accepted")
	zz.Reach("end")
}

var _ = wasm.SectionIDCustom
