ID="s18-checkflag-all"; PROP="C18"
NEEDS="a flag mask with several bits of which only some are set"
BREAKS="CheckFlag asks for all bits instead of any"
EDITS=[("box.go","return box.GetFlags()&flag != 0","return flag != 0 && box.GetFlags()&flag == flag")]
DEMO='''package mp4
import "testing"
func TestSeedDemo(t *testing.T) {
	b := &FullBox{Flags: [3]byte{0, 0, 1}}
	if !b.CheckFlag(3) || b.CheckFlag(2) || b.CheckFlag(0) {
		t.Fatal("CheckFlag")
	}
}
'''
