// Package zzstd models library types: the analyser calls its functions in place
// of those of the library they are named after.
package zzstd

import (
	"io"

	zz "github.com/nanobus/iota/go/internal/zzverif"
)

// Writer models bufio.Writer: what is written reaches the underlying writer in
// order, at the latest when it is flushed.
type Writer struct {
	W       io.Writer
	Pending []byte
	Err     error
	Wrote   func() // called on every write
}

func Bufio_NewWriterSize(w io.Writer, _ int) *Writer { return &Writer{W: w} }
func Bufio_NewWriter(w io.Writer) *Writer            { return &Writer{W: w} }

// Wrote is called on every use of a Writer.
var Wrote func()

func Bufio_Writer_Write(b *Writer, p []byte) (int, error) {
	if Wrote != nil {
		Wrote()
	}
	if b.Err != nil {
		return 0, b.Err
	}
	b.Pending = append(b.Pending, p...)
	return len(p), nil
}

func Bufio_Writer_WriteByte(b *Writer, c byte) error {
	_, err := Bufio_Writer_Write(b, []byte{c})
	return err
}

func Bufio_Writer_WriteString(b *Writer, s string) (int, error) {
	return Bufio_Writer_Write(b, []byte(s))
}

func Bufio_Writer_Buffered(b *Writer) int { return len(b.Pending) }

func Bufio_Writer_Flush(b *Writer) error {
	if Wrote != nil {
		Wrote()
	}
	if b.Err != nil {
		return b.Err
	}
	if len(b.Pending) == 0 {
		return nil
	}
	_, err := b.W.Write(b.Pending)
	if err == nil {
		b.Pending = nil
	}
	b.Err = err
	return err
}

func Bufio_Writer_Reset(b *Writer, w io.Writer) {
	if Wrote != nil {
		Wrote()
	}
	b.W, b.Pending, b.Err = w, nil, nil
}

// Scanner models bufio.Scanner: it reads into a buffer it uses again, and
// splits off tokens of it.
type Scanner struct {
	R     io.Reader
	Split func(data []byte, eof bool) (int, []byte, error)
	Max   int
	Buf   []byte // read and not consumed
	Token []byte
	EOF   bool
	Error error
	Done  bool
}

func Bufio_NewScanner(r io.Reader) *Scanner { return &Scanner{R: r, Max: 64 * 1024} }

func Bufio_Scanner_Split(s *Scanner, f func([]byte, bool) (int, []byte, error)) { s.Split = f }

func Bufio_Scanner_Buffer(s *Scanner, _ []byte, max int) { s.Max = max }

func Bufio_Scanner_Bytes(s *Scanner) []byte { return s.Token }

func Bufio_Scanner_Text(s *Scanner) string { return string(s.Token) }

func Bufio_Scanner_Err(s *Scanner) error { return s.Error }

func Bufio_Scanner_Scan(s *Scanner) bool {
	if s.Done {
		return false
	}
	// what is left moves to the front of the buffer
	old := s.Buf
	s.Buf = append([]byte(nil), old...)
	if s.Token != nil {
		copy(s.Token, zz.BytesN("overwritten", len(s.Token)))
	}
	s.Token = nil
	for i := 0; ; i++ {
		if len(s.Buf) > 0 || s.EOF {
			// no more than the buffer takes
			data := s.Buf
			full := len(data) >= s.Max
			if full {
				data = data[:s.Max]
			}
			n, token, err := s.Split(data, s.EOF && !full)
			if err != nil {
				s.Error = err
				s.Done = true
				return false
			}
			zz.Assert(n >= 0 && n <= len(data), "a split function consumes more than there is")
			s.Buf = s.Buf[n:]
			if token != nil {
				zz.Assert(n > 0, "a split function gives tokens without consuming anything")
				s.Token = token
				return true
			}
			if full && n == 0 {
				s.Error = io.ErrShortBuffer
				s.Done = true
				return false
			}
		}
		if s.EOF {
			s.Done = true
			return false
		}
		p, err := s.read()
		s.Buf = append(s.Buf, p...)
		if err != nil {
			s.EOF = true
			if err != io.EOF {
				s.Error = err
			}
		}
	}
}

func (s *Scanner) read() ([]byte, error) {
	if r, ok := s.R.(interface{ Chunk() ([]byte, error) }); ok {
		return r.Chunk()
	}
	p := make([]byte, s.Max)
	n, err := s.R.Read(p)
	return p[:n], err
}
