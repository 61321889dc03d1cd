ID="s04-opt-needs-all-bits"; PROP="C04"
NEEDS="a field whose required flag mask has several bits, in a box that has some of them set"
BREAKS="a required flag mask is met only when all of its bits are set"
EDITS=[("field.go","	if fi.optFlag != 0 && box.GetFlags()&fi.optFlag == 0 {","	if fi.optFlag != 0 && box.GetFlags()&fi.optFlag != fi.optFlag {")]
DEMO='''package mp4
import "bytes"
import "testing"
type demoBox struct {
	FullBox `mp4:"0,extend"`
	A uint8 `mp4:"1,size=8,opt=0x3"`
}
func (*demoBox) GetType() BoxType { return StrToBoxType("zz04") }
func TestSeedDemo(t *testing.T) {
	AddBoxDef(&demoBox{})
	b := &demoBox{A: 7}
	b.SetFlags(2)
	var w bytes.Buffer
	n, err := Marshal(&w, b, Context{})
	if err != nil || n != 5 {
		t.Fatal(n, err)
	}
}
'''
