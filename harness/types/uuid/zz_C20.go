package uuid

import (
	zz "github.com/nanobus/iota/go/internal/zzverif"
)

// Text forms give back the identifier.
func zzScenario_C20_string() {
	u := zzID()
	v, err := Parse(u.String())
	zz.Assert(err == nil && v == u, "an identifier is not read back from its text")
	zz.Reach("end")
}

func zzScenario_C20_urn() {
	u := zzID()
	v, err := Parse(u.URN())
	zz.Assert(err == nil && v == u, "an identifier is not read back from its URN")
	zz.Reach("end")
}

func zzScenario_C20_braces() {
	u := zzID()
	v, err := Parse("{" + u.String() + "}")
	zz.Assert(err == nil && v == u, "an identifier is not read back from its text in braces")
	zz.Reach("end")
}

func zzScenario_C20_text() {
	u := zzID()
	b, err := u.MarshalText()
	zz.Assert(err == nil, "an identifier has no text")
	var v UUID
	err = v.UnmarshalText(b)
	zz.Assert(err == nil && v == u, "an identifier is not read back from its text")
	zz.Assert(string(b) == u.String(), "an identifier has two texts")
	zz.Reach("end")
}

func zzScenario_C20_binary() {
	u := zzID()
	b, err := u.MarshalBinary()
	zz.Assert(err == nil && len(b) == 16, "an identifier is not 16 bytes")
	v, err := FromBytes(b)
	zz.Assert(err == nil && v == u, "an identifier is not read back from its bytes")
	zz.Reach("end")
}

func zzScenario_C20_binary_any() {
	b := zz.Bytes("b")
	v, err := FromBytes(b)
	zz.Assert((err == nil) == (len(b) == 16), "the wrong number of bytes is accepted, or the right one refused")
	if err == nil {
		zz.Assert(zz.Same(v[:], b), "an identifier is not read back from its bytes")
	}
	zz.Reach("end")
}

// Any text is parsed or refused, in the same way as bytes and as text.
func zzParse(n int) {
	b := zz.BytesN("text", n)
	Parse(string(b))
	ParseBytes(b)
	zz.Reach("end")
}

func zzScenario_C20_parse_36() { zzParse(36) }
func zzScenario_C20_parse_45() { zzParse(45) }
func zzScenario_C20_parse_38() { zzParse(38) }
func zzScenario_C20_parse_32() { zzParse(32) }

func zzScenario_C20_parse_other() {
	b := zz.Bytes("text")
	switch len(b) {
	case 36, 45, 38, 32:
	default:
		_, err := Parse(string(b))
		zz.Assert(err != nil && IsInvalidLengthError(err), "a text of the wrong length is accepted")
		_, err = ParseBytes(b)
		zz.Assert(err != nil && IsInvalidLengthError(err), "a text of the wrong length is accepted")
		zz.Reach("end")
	}
}

// zzDigit is a character of one class, and whether it is a hexadecimal digit.
func zzDigit() (byte, bool) {
	k := zz.Choice(7)
	lo := []int{'0', 'A', 'a', 0, '9' + 1, 'F' + 1, 'f' + 1}
	hi := []int{'9', 'F', 'f', '0' - 1, 'A' - 1, 'a' - 1, 255}
	return byte(zz.Int(lo[k], hi[k])), k < 3
}

func zzScenario_C20_digits() {
	s := []byte("0123456789abcdef0123456789abcdef")
	c, hex := zzDigit()
	s[13] = c
	_, err := Parse(string(s))
	zz.Assert((err == nil) == hex, "a text with another digit is accepted")
	_, berr := ParseBytes(s)
	zz.Assert((err == nil) == (berr == nil), "text and bytes are parsed differently")
	zz.Reach("end")
}

func zzScenario_C20_digits_dashed() {
	s := []byte("01234567-89ab-cdef-0123-456789abcdef")
	c, hex := zzDigit()
	s[26] = c
	_, err := Parse(string(s))
	zz.Assert((err == nil) == hex, "a text with another digit is accepted")
	_, berr := ParseBytes(s)
	zz.Assert((err == nil) == (berr == nil), "text and bytes are parsed differently")
	zz.Reach("end")
}

func zzScenario_C20_version() {
	u, err := NewRandomFromReader(zzReader{})
	zz.Assert(err == nil, "an identifier is not made")
	zz.Assert(u.Version() == 4, "a random identifier is not version 4")
	zz.Assert(u.Variant() == RFC4122, "a random identifier is not RFC 4122")
	zz.Reach("end")
}

func zzScenario_C20_pool() {
	SetRand(zzReader{})
	EnableRandPool()
	n := zz.Choice(3)
	for i := 0; i < n; i++ {
		New()
	}
	u := New()
	zz.Assert(!zz.Held(), "the pool is left locked")
	zz.Assert(u.Version() == 4 && u.Variant() == RFC4122, "a random identifier from the pool is not version 4")
	DisableRandPool()
	zz.Assert(!zz.Held(), "the pool is left locked")
	zz.Reach("end")
}

type zzFailing struct{ err error }

func (r zzFailing) Read(p []byte) (int, error) {
	return 0, r.err
}

// Without randomness there is an error, no lock is kept, and the pool works
// again once there is some.
func zzScenario_C20_no_randomness() {
	EnableRandPool()
	SetRand(zzFailing{zz.NonNil[error]("no entropy")})
	_, err := NewRandom()
	zz.Assert(err != nil, "an identifier is made without randomness")
	zz.Assert(!zz.Held(), "the pool is left locked")
	_, err = NewRandomFromReader(zzFailing{zz.NonNil[error]("no entropy")})
	zz.Assert(err != nil, "an identifier is made without randomness")
	SetRand(zzReader{})
	u, err := NewRandom()
	zz.Assert(err == nil && u.Version() == 4 && u.Variant() == RFC4122, "a random identifier from the pool is not version 4")
	zz.Assert(!zz.Held(), "the pool is left locked")
	zz.Reach("end")
}

// The pool is used up and filled again: no identifier is given twice from the
// same randomness.
type zzCounting struct{ fills *int }

func (r zzCounting) Read(p []byte) (int, error) {
	*r.fills++
	return copy(p, zz.BytesN("random", len(p))), nil
}

func zzScenario_C20_pool_refill() {
	fills := 0
	SetRand(zzCounting{&fills})
	EnableRandPool()
	for i := 0; i < 16; i++ {
		u := New()
		zz.Assert(u.Version() == 4 && u.Variant() == RFC4122, "a random identifier from the pool is not version 4")
	}
	zz.Assert(fills >= 1, "no randomness is read")
	before := fills
	for i := 0; i < 16; i++ {
		New()
	}
	zz.Assert(fills > before, "randomness is used twice")
	zz.Assert(!zz.Held(), "the pool is left locked")
	zz.Reach("end")
}

// Bytes are read as text is, in every form.
func zzScenario_C20_forms() {
	u := zzID()
	s := u.String()
	var t string
	switch zz.Choice(4) {
	case 0:
		t = s
	case 1:
		t = "{" + s + "}"
	case 2:
		t = u.URN()
	default:
		t = s[:8] + s[9:13] + s[14:18] + s[19:23] + s[24:]
	}
	v, err := ParseBytes([]byte(t))
	zz.Assert(err == nil && v == u, "an identifier is not read back from bytes")
	v, err = Parse(t)
	zz.Assert(err == nil && v == u, "an identifier is not read back from text")
	zz.Assert(MustParse(t) == u, "an identifier is not read back from text")
	zz.Reach("end")
}

// The text of an identifier is its digits in order.
func zzScenario_C20_layout() {
	u := UUID{0x01, 0x23, 0x45, 0x67, 0x89, 0xab, 0xcd, 0xef, 0xfe, 0xdc, 0xba, 0x98, 0x76, 0x54, 0x32, 0x10}
	zz.Assert(u.String() == "01234567-89ab-cdef-fedc-ba9876543210", "the text of an identifier is not the one of RFC 4122")
	zz.Assert(u.URN() == "urn:uuid:01234567-89ab-cdef-fedc-ba9876543210", "the URN of an identifier is not the one of RFC 4122")
	zz.Reach("end")
}

// A digit means its value, in either case.
func zzScenario_C20_digit_value() {
	k := zz.Choice(22)
	c := "0123456789abcdefABCDEF"[k]
	n := byte(k)
	if k > 15 {
		n -= 6
	}
	high := zz.Choice(2) == 0
	s := []byte("01234567-89ab-cdef-0123-456789abcdef")
	want := byte(0x89)
	if high {
		s[9] = c
		want = n<<4 | 9
	} else {
		s[10] = c
		want = 0x80 | n
	}
	u, err := Parse(string(s))
	v, berr := ParseBytes(s)
	zz.Assert(err == nil && u[4] == want, "a digit is read as another number")
	zz.Assert(berr == nil && v[4] == want, "a digit is read as another number from bytes")
	zz.Reach("end")
}

// zzOther is any character but one.
func zzOther(c byte) byte {
	if zz.Choice(2) == 0 {
		return byte(zz.Int(int(c)+1, 255))
	}
	return byte(zz.Int(0, int(c)-1))
}

// Texts without the dashes or with another prefix are refused.
func zzScenario_C20_dashes() {
	s := "01234567-89ab-cdef-0123-456789abcdef"
	forms := []string{s, "{" + s + "}", "urn:uuid:" + s}
	k := zz.Choice(3)
	b := []byte(forms[k])
	at := []int{0, 1, 9}[k] + []int{8, 13, 18, 23}[zz.Choice(4)]
	b[at] = zzOther('-')
	_, err := Parse(string(b))
	zz.Assert(err != nil, "a text without a dash is accepted")
	_, err = ParseBytes(b)
	zz.Assert(err != nil, "bytes without a dash are accepted")
	zz.Reach("end")
}

func zzScenario_C20_prefix() {
	b := []byte("urn:uuid:01234567-89ab-cdef-0123-456789abcdef")
	k := zz.Choice(9)
	if zz.Choice(2) == 0 {
		b[k] = "xxx;xxxx;"[k]
		_, err := Parse(string(b))
		zz.Assert(err != nil, "a text with another prefix is accepted")
		_, err = ParseBytes(b)
		zz.Assert(err != nil, "bytes with another prefix are accepted")
	} else {
		b[k] = "URN:UUID:"[k]
		_, err := Parse(string(b))
		zz.Assert(err == nil, "a URN in capitals is refused")
		_, err = ParseBytes(b)
		zz.Assert(err == nil, "a URN in capitals is refused as bytes")
	}
	zz.Reach("end")
}

// What has to be an identifier is one.
func zzScenario_C20_must() {
	u := zzID()
	zz.Assert(Must(u, nil) == u, "an identifier is changed")
	zz.Assert(zz.Panics(func() { Must(u, zz.NonNil[error]("failure")) }), "a failure to make an identifier is ignored")
	zz.Assert(zz.Panics(func() { MustParse("no identifier") }), "a text that is no identifier is accepted")
	zz.Reach("end")
}
