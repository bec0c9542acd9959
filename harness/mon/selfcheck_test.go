package mon

import "testing"

// the harness's own grammars are what they are meant to be
func TestHarnessGrammars(t *testing.T) {
	dict = loadDict()
	for _, g := range realGrams() {
		if r := analyse(g); r.conflict != "" || !g.reduced() {
			t.Error(g.Kind, r.conflict)
		}
	}
}
