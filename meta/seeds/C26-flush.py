id='C26-flush'; property='C26'; pkg='recast'
needs='more messages than the log can hold'
breaks='a message logged into a full log overwrites the last recorded one'
edits=[('recast/buildcontext.go','''	if ctx.logEnabled && ctx.numMessages < maxMessages {
		// Store message
''','''	if ctx.logEnabled {
		if ctx.numMessages == maxMessages {
			ctx.numMessages--
		}
		// Store message
''')]
test='''
import "testing"

func TestDemo(t *testing.T) {
	ctx := NewBuildContext(true)
	for i := 0; i < 1010; i++ {
		ctx.Progressf("%d", i)
	}
	if ctx.LogCount() != 1000 || ctx.LogText(999) != "PROG 999" {
		t.Fatal(ctx.LogCount(), ctx.LogText(999))
	}
}
'''
