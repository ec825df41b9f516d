id='C07-clear'; property='C07'; pkg='detour'
needs='a pool holding fewer nodes than it has buckets is cleared, and references asked for before are asked for again'
breaks='Clear only resets as many buckets as there are nodes when the pool is sparsely used, so chains of the previous search survive'
edits=[('detour/node.go','''	for idx := range np.first {
		np.first[idx] = nullIdx
	}
	np.nodeCount = 0''','''	used := np.first
	if int(np.nodeCount) < len(used)/4 {
		used = used[:4*np.nodeCount]
	}
	for idx := range used {
		used[idx] = nullIdx
	}
	np.nodeCount = 0''')]
test='''
import "testing"

func TestDemo(t *testing.T) {
	np := newNodePool(64, 64)
	for r := PolyRef(1); r < 200; r++ {
		np.Clear()
		np.Node(r, 0)
		np.Clear()
		if np.FindNode(r, 0) != nil {
			t.Fatalf("found %d after Clear", r)
		}
	}
}
'''
