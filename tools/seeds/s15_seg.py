ID="s15-max-window"; PROP="C15"
NEEDS="a window whose last sample makes the duration exactly equal to timeDelta"
BREAKS="the sliding window of GetMaxBitrate keeps one sample too many when the duration equals timeDelta"
EDITS=[("probe.go","			if duration < timeDelta {\n				break","			if duration <= timeDelta {\n				break")]
DEMO='''package mp4
import "testing"
func TestSeedDemo(t *testing.T) {
	s := Samples{{Size: 1, TimeDelta: 5}, {Size: 1, TimeDelta: 10}, {Size: 100, TimeDelta: 10}}
	// windows for 10 units: {0,1}, {2}
	if r := s.GetMaxBitrate(1, 10); r != 80 {
		t.Fatal(r)
	}
}
'''
