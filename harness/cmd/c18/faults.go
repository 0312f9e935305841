package main

import (
	"errors"
	"io"
	"math/rand/v2"
)

var errInjected = errors.New("injected fault")

// A faultWriter accepts exactly limit bytes and then fails.
type faultWriter struct {
	limit    int
	mode     int
	chunk    int // most bytes accepted per call in mode shortNil
	accepted []byte
	calls    int
	failed   bool
	after    int // calls after the first failure
}

const (
	partialErr = iota // the failing call accepts what fits and returns an error
	allOrNone         // the failing call accepts nothing
	shortNil          // the failing call accepts what fits, and reports no error
	lateErr           // the call which reaches the limit accepts everything which fits, and already returns an error
	onceErr           // only the first failing call fails, all later calls succeed
	numModes          //
)

var modeNames = []string{"partial", "all or none", "short write without error", "late error", "single error"}

func (w *faultWriter) Write(p []byte) (int, error) {
	w.calls++
	if w.failed {
		w.after++
		switch w.mode {
		case onceErr:
			w.accepted = append(w.accepted, p...)
			return len(p), nil
		case shortNil:
			return 0, nil
		}
		return 0, errInjected
	}
	room := w.limit - len(w.accepted)
	if len(p) < room || len(p) == room && w.mode != lateErr {
		w.accepted = append(w.accepted, p...)
		return len(p), nil
	}
	if w.mode == lateErr && len(p) == 0 && room == 0 && w.limit > 0 {
		// an empty write at the limit
		return 0, errInjected
	}
	w.failed = true
	n := min(room, len(p))
	if w.mode == allOrNone {
		n = 0
	}
	w.accepted = append(w.accepted, p[:n]...)
	if w.mode == shortNil {
		return n, nil
	}
	return n, errInjected
}

// A source is a seekable reader with faults.
type source struct {
	data []byte
	off  int64

	from, to int  // accesses to the bytes from <= offset < to fail
	partial  bool // the failing call delivers the bytes before the fault
	failCall int  // this call of ReadAt fails
	err      error

	eofAtEnd bool // io.EOF comes together with the last bytes

	calls   int
	hit     bool // an access failed
	maxRead int  // end of the last byte delivered
}

func newSource(data []byte) *source {
	return &source{data: data, from: len(data), to: len(data), failCall: -1, err: errInjected}
}

func (s *source) ReadAt(p []byte, off int64) (int, error) {
	call := s.calls
	s.calls++
	if call == s.failCall {
		s.hit = true
		return 0, s.err
	}
	if off < 0 {
		return 0, errors.New("negative offset")
	}
	end := off + int64(len(p))
	if len(p) > 0 && off < int64(s.to) && end > int64(s.from) && s.from < s.to {
		s.hit = true
		n := 0
		if s.partial && off < int64(s.from) {
			n = copy(p, s.data[off:s.from])
		}
		return n, s.err
	}
	if off >= int64(len(s.data)) {
		return 0, io.EOF
	}
	n := copy(p, s.data[off:])
	s.maxRead = max(s.maxRead, int(off)+n)
	if n < len(p) || s.eofAtEnd && n > 0 && int(off)+n == len(s.data) {
		return n, io.EOF
	}
	return n, nil
}

func (s *source) Size() int64 { return int64(len(s.data)) }

func (s *source) Seek(offset int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		offset += s.off
	case io.SeekEnd:
		offset += int64(len(s.data))
	}
	if offset < 0 {
		return 0, errors.New("negative position")
	}
	s.off = offset
	return offset, nil
}

func (s *source) Read(p []byte) (int, error) {
	n, err := s.ReadAt(p, s.off)
	s.off += int64(n)
	if n > 0 && err == io.EOF {
		err = nil
	}
	return n, err
}

// A stream is a reader without random access.
type stream struct {
	data    []byte
	fail    int // fails here (-1: never)
	err     error
	rng     *rand.Rand
	style   int
	withErr bool // the last bytes come together with the error
}

func (s *stream) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	end := len(s.data)
	err := io.EOF
	if s.fail >= 0 && s.fail < end {
		end, err = s.fail, s.err
	}
	if end == 0 {
		return 0, err
	}
	n := min(len(p), end)
	switch s.style {
	case 1:
		n = 1
	case 2:
		n = 1 + s.rng.IntN(n)
		if s.rng.IntN(10) == 0 {
			return 0, nil
		}
	}
	copy(p, s.data[:n])
	s.data = s.data[n:]
	if s.fail >= 0 {
		s.fail -= n
	}
	if n == end && s.withErr {
		return n, err
	}
	return n, nil
}
