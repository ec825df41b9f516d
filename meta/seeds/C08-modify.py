id='C08-modify'; property='C08'; pkg='detour'
needs='the cost of the node in the last slot of the queue is lowered'
breaks='modify skips the last slot, which keeps its position although its cost went below that of its ancestors'
edits=[('detour/nodequeue.go','''	for i := int32(0); i < q.size; i++ {
		if q.heap[i] == node {''','''	last := q.size - 1
	for i := int32(0); i < last; i++ {
		if q.heap[i] == node {''')]
test='''
import "testing"

func TestDemo(t *testing.T) {
	q := newnodeQueue(8)
	a, b, c := &Node{Total: 1}, &Node{Total: 2}, &Node{Total: 3}
	q.push(a)
	q.push(b)
	q.push(c)
	c.Total = 0
	q.modify(c)
	if q.pop() != c {
		t.Fatal("minimum not on top")
	}
}
'''
