package bitio

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"testing"
)

var errFault = errors.New("verif: injected fault")

// vSource is a conforming io.ReadSeeker with awkward but legal habits.
type vSource struct {
	data    []byte
	pos     int64
	dataErr bool  // returns io.EOF together with the last bytes
	short   bool  // returns fewer bytes than asked for
	failAt  int64 // fails at this position (-1: never)
	seekErr bool
}

func (s *vSource) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if s.failAt >= 0 && s.pos >= s.failAt {
		return 0, errFault
	}
	if s.pos >= int64(len(s.data)) {
		return 0, io.EOF
	}
	n := len(p)
	if s.short && n > 1 {
		n = (n + 1) / 2
	}
	if s.failAt >= 0 && int64(n) > s.failAt-s.pos {
		n = int(s.failAt - s.pos)
	}
	n = copy(p[:n], s.data[s.pos:])
	s.pos += int64(n)
	if s.dataErr && s.pos >= int64(len(s.data)) {
		return n, io.EOF
	}
	return n, nil
}

func (s *vSource) Seek(off int64, whence int) (int64, error) {
	if s.seekErr {
		return 0, errFault
	}
	switch whence {
	case io.SeekCurrent:
		off += s.pos
	case io.SeekEnd:
		off += int64(len(s.data))
	}
	if off < 0 {
		return 0, errors.New("negative")
	}
	s.pos = off
	return off, nil
}

func TestVerifC01Reader(t *testing.T) {
	v := newV(t)
	defer v.done()
	for round := 0; round < v.rounds(6000) && !v.late(); round++ {
		s := &vSource{data: make([]byte, v.r.Intn(20)), failAt: -1, dataErr: v.r.Intn(3) == 0, short: v.r.Intn(3) == 0}
		v.r.Read(s.data)
		if v.r.Intn(4) == 0 && len(s.data) > 0 {
			s.failAt = int64(v.r.Intn(len(s.data)))
		}
		end := int64(len(s.data))
		if s.failAt >= 0 {
			end = s.failAt
		}
		var r ReadSeeker
		seek := true
		if v.r.Intn(4) == 0 {
			seek = false
			r = struct {
				Reader
				io.Seeker
			}{NewReader(s), nil}
		} else {
			r = NewReadSeeker(s)
		}
		bp := int64(0)
		hist := fmt.Sprintf("data=%x dataErr=%v short=%v failAt=%d:", s.data, s.dataErr, s.short, s.failAt)
		v.guard("panic", hist, func() {
			for k := 0; k < 14; k++ {
				switch op := v.r.Intn(6); {
				case op <= 1: // ReadBits
					n := uint(v.r.Intn(20))
					if v.r.Intn(6) == 0 {
						n = uint(v.r.Intn(150))
					}
					hist += fmt.Sprintf(" bits(%d)@%d", n, bp)
					got, err := r.ReadBits(n)
					if n > 0 && bp+int64(n) > 8*end {
						if err == nil {
							v.fail("read.pastend", "%s gives no error past the end of the data", hist)
						}
						if s.failAt >= 0 && !errors.Is(err, errFault) {
							v.fail("read.err", "%s: error of the source replaced by %v", hist, err)
						}
						return // part of the bits may be consumed
					}
					if err != nil {
						v.fail("read.bits", "%s fails: %v", hist, err)
						return
					}
					want := make([]byte, (n+7)/8)
					for i := uint(0); i < n; i++ { // last bit of the field is the lowest bit of the last octet
						q := bp + int64(n-1-i)
						if s.data[q/8]&(128>>uint(q%8)) != 0 {
							want[len(want)-1-int(i/8)] |= 1 << (i % 8)
						}
					}
					bp += int64(n)
					if !bytes.Equal(got, want) {
						v.fail("read.bits", "%s gives %x, want %x", hist, got, want)
						return
					}
				case op == 2: // ReadBit
					hist += fmt.Sprintf(" bit@%d", bp)
					got, err := r.ReadBit()
					if bp+1 > 8*end {
						if err == nil {
							v.fail("read.pastend", "%s gives no error past the end of the data", hist)
							return
						}
						continue
					}
					if err != nil {
						v.fail("read.bit", "%s fails: %v", hist, err)
						return
					}
					if want := s.data[bp/8]&(128>>uint(bp%8)) != 0; got != want {
						v.fail("read.bit", "%s gives %v, want %v", hist, got, want)
						return
					}
					bp++
				case op == 3: // Read
					p := make([]byte, v.r.Intn(6))
					hist += fmt.Sprintf(" read(%d)@%d", len(p), bp)
					pos := s.pos
					n, err := r.Read(p)
					if bp%8 != 0 {
						if n != 0 || !errors.Is(err, ErrInvalidAlignment) || s.pos != pos {
							v.fail("read.misaligned", "%s gives %d, %v and moves the source from %d to %d", hist, n, err, pos, s.pos)
							return
						}
						continue
					}
					if n < 0 || n > len(p) || n > 0 && bp/8+int64(n) > int64(len(s.data)) || n > 0 && !bytes.Equal(p[:n], s.data[bp/8:bp/8+int64(n)]) {
						v.fail("read.octets", "%s gives %d %x", hist, n, p)
						return
					}
					if n == 0 && len(p) > 0 && err == nil {
						v.fail("read.octets", "%s gives nothing and no error", hist)
						return
					}
					if n == 0 && len(p) > 0 && s.failAt >= 0 && !errors.Is(err, errFault) {
						v.fail("read.err", "%s: error of the source replaced by %v", hist, err)
						return
					}
					bp += 8 * int64(n)
				default: // Seek
					if !seek {
						continue
					}
					wh := v.r.Intn(3)
					s.seekErr = v.r.Intn(6) == 0
					off := int64(v.r.Intn(len(s.data)+3) - 1)
					if wh > 0 {
						off -= int64(v.r.Intn(len(s.data) + 1))
					}
					hist += fmt.Sprintf(" seek(%d,%d,err=%v)@%d", off, wh, s.seekErr, bp)
					pos := s.pos
					n, err := r.Seek(off, wh)
					if wh == io.SeekCurrent && bp%8 != 0 {
						if !errors.Is(err, ErrInvalidAlignment) || s.pos != pos {
							v.fail("seek.misaligned", "%s gives %d, %v and moves the source from %d to %d", hist, n, err, pos, s.pos)
							return
						}
						continue
					}
					want := off
					switch wh {
					case io.SeekCurrent:
						want += bp / 8
					case io.SeekEnd:
						want += int64(len(s.data))
					}
					if s.seekErr || want < 0 {
						if err == nil {
							v.fail("seek.err", "%s hides the error of the source", hist)
							return
						}
						if s.seekErr && !errors.Is(err, errFault) {
							v.fail("seek.err", "%s: error of the source replaced by %v", hist, err)
							return
						}
						continue
					}
					if err != nil || n != want {
						v.fail("seek", "%s gives %d, %v", hist, n, err)
						return
					}
					bp = 8 * n
				}
			}
		})
		v.eval("%s", hist)
	}
}

type vSink struct {
	buf    []byte
	failAt int
}

func (s *vSink) Write(p []byte) (int, error) {
	if s.failAt >= 0 && len(s.buf)+len(p) > s.failAt {
		n := s.failAt - len(s.buf)
		if n < 0 {
			n = 0
		}
		s.buf = append(s.buf, p[:n]...)
		return n, errFault
	}
	s.buf = append(s.buf, p...)
	return len(p), nil
}

func TestVerifC01Writer(t *testing.T) {
	v := newV(t)
	defer v.done()
	for round := 0; round < v.rounds(8000) && !v.late(); round++ {
		s := &vSink{failAt: -1}
		if v.r.Intn(3) == 0 {
			s.failAt = v.r.Intn(8)
		}
		w := NewWriter(s)
		var want []byte
		nb := 0
		put := func(b bool) {
			if nb%8 == 0 {
				want = append(want, 0)
			}
			if b {
				want[nb/8] |= 128 >> uint(nb%8)
			}
			nb++
		}
		hist := fmt.Sprintf("failAt=%d:", s.failAt)
		v.guard("panic", hist, func() {
			for k := 0; k < 14; k++ {
				var err error
				mis := false
				switch v.r.Intn(4) {
				case 0, 1:
					data := make([]byte, v.r.Intn(6))
					v.r.Read(data)
					width := uint(v.r.Intn(8*len(data) + 1))
					keep := append([]byte{}, data...)
					hist += fmt.Sprintf(" bits(%x,%d)@%d", data, width, nb)
					err = w.WriteBits(data, width)
					if !bytes.Equal(keep, data) {
						v.fail("write.bits", "%s alters its argument", hist)
						return
					}
					for i := 8*len(data) - int(width); i < 8*len(data); i++ {
						put(data[i/8]&(128>>uint(i%8)) != 0)
					}
				case 2:
					b := v.r.Intn(2) == 0
					hist += fmt.Sprintf(" bit(%v)@%d", b, nb)
					err = w.WriteBit(b)
					put(b)
				default:
					p := make([]byte, v.r.Intn(4))
					v.r.Read(p)
					hist += fmt.Sprintf(" write(%x)@%d", p, nb)
					var n int
					n, err = w.Write(p)
					if nb%8 != 0 {
						mis = true
						if n != 0 || !errors.Is(err, ErrInvalidAlignment) {
							v.fail("write.misaligned", "%s gives %d, %v", hist, n, err)
							return
						}
						break
					}
					if err == nil && n != len(p) {
						v.fail("write.octets", "%s gives %d", hist, n)
						return
					}
					for _, b := range p {
						for i := 7; i >= 0; i-- {
							put(b>>uint(i)&1 != 0)
						}
					}
				}
				if s.failAt >= 0 && nb/8 > s.failAt && !mis {
					if !errors.Is(err, errFault) {
						v.fail("write.err", "%s hides the error of the sink: %v", hist, err)
					}
					return
				}
				if err != nil && !mis {
					v.fail("write", "%s fails: %v", hist, err)
					return
				}
				if !bytes.Equal(s.buf, want[:nb/8]) {
					v.fail("write.bits", "%s emitted %x, want %x", hist, s.buf, want[:nb/8])
					return
				}
			}
		})
		v.eval("%s", hist)
	}
}
