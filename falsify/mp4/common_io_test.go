package mp4

import (
	"errors"
	"io"
)

var errFault = errors.New("verif: injected fault")

// vFile is an in-memory file: io.ReadWriteSeeker with legal but awkward habits and injected faults.
type vFile struct {
	data    []byte
	pos     int64
	dataErr bool // io.EOF together with the last bytes
	short   bool // short reads
	ops     int  // operations so far
	failOp  int  // the operation that fails (0: none)
	failed  bool
	writes  [][2]int64
	reads   int64 // bytes read
	maxSeek int64
}

func (s *vFile) fault() bool {
	s.ops++
	if s.failOp > 0 && s.ops >= s.failOp {
		s.failed = true
		return true
	}
	return false
}

func (s *vFile) Read(p []byte) (int, error) {
	if s.fault() {
		return 0, errFault
	}
	if len(p) == 0 {
		return 0, nil
	}
	if s.pos >= int64(len(s.data)) {
		return 0, io.EOF
	}
	n := len(p)
	if s.short && n > 1 {
		n = (n + 1) / 2
	}
	n = copy(p[:n], s.data[s.pos:])
	s.pos += int64(n)
	s.reads += int64(n)
	if s.dataErr && s.pos >= int64(len(s.data)) {
		return n, io.EOF
	}
	return n, nil
}

func (s *vFile) Write(p []byte) (int, error) {
	if s.fault() {
		n := len(p) / 2
		s.put(p[:n])
		return n, errFault
	}
	s.put(p)
	return len(p), nil
}

func (s *vFile) put(p []byte) {
	if len(p) == 0 {
		return
	}
	s.writes = append(s.writes, [2]int64{s.pos, int64(len(p))})
	if s.pos > 1<<30 {
		s.pos += int64(len(p)) // far away: position only
		return
	}
	for int64(len(s.data)) < s.pos+int64(len(p)) {
		s.data = append(s.data, 0)
	}
	copy(s.data[s.pos:], p)
	s.pos += int64(len(p))
}

func (s *vFile) Seek(off int64, whence int) (int64, error) {
	if s.fault() {
		return 0, errFault
	}
	switch whence {
	case io.SeekCurrent:
		off += s.pos
	case io.SeekEnd:
		off += int64(len(s.data))
	}
	if off < 0 {
		return 0, errors.New("verif: negative position")
	}
	s.pos = off
	if off > s.maxSeek {
		s.maxSeek = off
	}
	return off, nil
}

func vType(v *vctx) BoxType {
	switch v.r.Intn(4) {
	case 0:
		return BoxType{'m', 'o', 'o', 'v'}
	case 1:
		return BoxType{}
	}
	return BoxType{byte(v.u64()), byte(v.u64()), byte(v.u64()), byte(v.u64())}
}

