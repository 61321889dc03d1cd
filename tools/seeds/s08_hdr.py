ID="s08-outgrown-header"; PROP="C08"
NEEDS="a box opened with a short header that grows beyond 4 GiB before it is closed"
BREAKS="the check that the header still fits compares against the header of the enclosing box bookkeeping and never fires; the long header overwrites 8 octets of payload"
EDITS=[("write.go","	} else if bi.HeaderSize != bi2.HeaderSize {","	} else if bi.HeaderSize > bi2.HeaderSize {")]
DEMO='''package mp4
import "io"
import "testing"
type demoSink struct{ pos int64 }
func (s *demoSink) Write(p []byte) (int, error) { s.pos += int64(len(p)); return len(p), nil }
func (s *demoSink) Seek(o int64, w int) (int64, error) {
	if w == io.SeekCurrent {
		o += s.pos
	}
	s.pos = o
	return o, nil
}
func TestSeedDemo(t *testing.T) {
	s := &demoSink{}
	w := NewWriter(s)
	w.StartBox(&BoxInfo{Type: StrToBoxType("mdat")})
	s.pos = 1 << 33
	if _, err := w.EndBox(); err == nil {
		t.Fatal("no error")
	}
}
'''
