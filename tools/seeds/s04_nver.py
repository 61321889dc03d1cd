ID="s04-nver-from-zero"; PROP="C04"
NEEDS="a field declared nver=0 read or written in a box whose version is still unknown"
BREAKS="the excluded version rule treats an unknown version as version 0"
EDITS=[("field.go","	if box.GetVersion() != anyVersion {\n		if fi.version","	if box.GetVersion() == anyVersion {\n		if fi.nVersion == 0 && fi.version == anyVersion {\n			return false\n		}\n	} else {\n		if fi.version")]
DEMO='''package mp4
import "bytes"
import "testing"
type demoBox struct {
	Box
	A uint8 `mp4:"0,size=8,nver=0"`
	Version uint8 `mp4:"1,size=8"`
	Flags [3]byte `mp4:"2,size=8"`
}
func (b *demoBox) GetVersion() uint8 { return b.Version }
func (b *demoBox) SetVersion(v uint8) { b.Version = v }
func (*demoBox) GetType() BoxType { return StrToBoxType("zz04") }
func TestSeedDemo(t *testing.T) {
	AddBoxDef(&demoBox{})
	b := &demoBox{}
	n, err := Unmarshal(bytes.NewReader([]byte{9, 0, 0, 0, 0}), 5, b, Context{})
	if err != nil || n != 5 || b.A != 9 {
		t.Fatal(n, err, b)
	}
}
'''
