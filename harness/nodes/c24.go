package nodes

import (
	"time"

	"github.com/stampzilla/gozwave/zzverif/sym"
)

//verif:goal property=C24 reach=end timed=1 timeout=200 delays=4 thorough.delays=6 thorough.timeout=800 steps=1000000
//verif:uses util.go
//verif:doc three goroutines, each adding, looking up (arbitrary ids) and listing, for every schedule within the delay bound: no deadlock, no unsynchronised map access, lookups after an add find the added node, a listing stays as it was
func VerifC24Mix() {
	sym.FixMapOrder(true)
	l := NewList()
	old := New(1)
	l.Add(old)
	done := make(chan bool, 3)
	for g := 0; g < 3; g++ {
		g := g
		go func() {
			n := New(10 + g)
			l.Add(n)
			sym.Assert(l.Get(10+g) == n, "a lookup after an add returns the added node")
			all := l.All()
			sym.Assert(all[10+g] == n && all[1] == old, "a listing after an add contains the node")
			k := len(all)
			if g == 0 {
				sym.Assert(l.Get(sym.Int("id", -5, 0)) == nil, "a lookup of an absent id")
			}
			time.Sleep(time.Millisecond)
			c := 0
			for id, x := range all {
				sym.Assert(x != nil && x.Id == id, "the listing has every node under its id")
				c++
			}
			sym.Assert(c == k && len(all) == k, "a listing is not changed by later additions")
			done <- true
		}()
	}
	for g := 0; g < 3; g++ {
		<-done
	}
	sym.Reach("end")
	sym.Assert(len(l.All()) == 4, "all nodes are in the list")
}

//verif:goal property=C24 reach=found,absent timeout=60
//verif:uses util.go
//verif:doc adding up to three nodes with arbitrary ids, then looking up an arbitrary id
func VerifC24Lookup() {
	l := NewList()
	k := sym.Choice("nodes", 4)
	var ns []*Node
	for i := 0; i < k; i++ {
		n := New(sym.Int("id", 1, 232))
		l.Add(n)
		ns = append(ns, n)
	}
	id := sym.Int("lookup", -300, 300)
	var want *Node
	for _, n := range ns {
		if n.Id == id {
			want = n // the last one added
		}
	}
	if want != nil {
		sym.Reach("found")
	} else {
		sym.Reach("absent")
	}
	sym.Assert(l.Get(id) == want, "a lookup returns the node added last under this id, or nothing")
	for i, n := range l.All() {
		sym.Assert(n != nil && n.Id == i, "a listing has every node under its id")
	}
}

//verif:goal property=C24 reach=private timeout=60
//verif:uses util.go
//verif:doc changing a listing does not change the list, and additions (also of a known id) do not change a listing
func VerifC24Private() {
	l := NewList()
	a, b := New(1), New(2)
	l.Add(a)
	l.Add(b)
	all := l.All()
	id := sym.Int("id", 1, 4)
	l.Add(New(id))
	sym.Reach("private")
	sym.Assert(len(all) == 2 && all[1] == a && all[2] == b, "a listing is not changed by later additions")
	delete(all, 1)
	all[7] = b
	sym.Assert(l.Get(1) != nil && l.Get(7) == nil, "the list is not changed through a listing")
}

//verif:goal property=C24 reach=many timeout=60 steps=2000000
//verif:uses util.go
//verif:doc a list of up to 232 nodes: a listing has them all, is not changed by a later addition, and changing it does not change the list
func VerifC24Many() {
	sym.FixMapOrder(true)
	l := NewList()
	k := []int{0, 1, 2, 8, 17, 33, 100, 129, 231}[sym.Choice("nodes", 9)]
	for i := 1; i <= k; i++ {
		l.Add(New(i))
	}
	all := l.All()
	l.Add(New(k + 1))
	sym.Reach("many")
	sym.Assert(len(all) == k && all[k+1] == nil, "a listing is not changed by later additions")
	for i := 1; i <= k; i++ {
		sym.Assert(all[i] != nil && all[i] == l.Get(i) && all[i].Id == i, "a listing has every node under its id")
	}
	if all != nil {
		delete(all, 1)
		all[250] = New(250)
	}
	sym.Assert(l.Get(1) != nil && l.Get(250) == nil && len(l.All()) == k+1, "the list is not changed through a listing")
}
