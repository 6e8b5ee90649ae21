H='''package semnet

import (
%s
	"testing"
)

'''
C='internal/concrete/'
BUGS=[
dict(id='s17-detail-latest',property='C06',
 edits=[(C+'detail/entity.go','''	return e.storage.Connect(e.remark, remark)
''','''	remarks, err := e.storage.ReadTargets(e.remark)
	if err != nil {
		return err
	}

	err = e.storage.Connect(e.remark, remark)
	if err != nil {
		return err
	}

	// keep the list of remarks short
	if len(remarks) > 2 && remarks[0] != remark {
		return e.storage.Disconnect(e.remark, remarks[0])
	}

	return nil
''')],
 needs='the same object-property pair used by a fourth remark',
 breaks='the link from the detail to the oldest of its remarks is removed, so that remark has no object and property any more',
 demo=H%''+'''func TestDemo(t *testing.T) {
	g := NewGraph(newDemoStore())
	first, err := g.CreateStory("cat", "sleeps")
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 5; i++ {
		if _, err := g.CreateStory("cat", "sleeps"); err != nil {
			t.Fatal(err)
		}
	}
	o, p, err := first.GetObjectAndProperty()
	if err != nil || o != "cat" || p != "sleeps" {
		t.Fatal(o, p, err)
	}
}
'''),
dict(id='s18-last-child-remembered',property='C09',
 edits=[(C+'fact/repository.go','''	storyRepository abstractStory.Repository
}''','''	storyRepository abstractStory.Repository
	lastChild       map[uint]uint
}'''),
 (C+'fact/repository.go','''		storyRepository: storyRepository,
	}
}''','''		storyRepository: storyRepository,
		lastChild:       map[uint]uint{},
	}
}'''),
 (C+'fact/repository.go','''	siblingTrees, err := story.GetSourceTrees()
	if err != nil {
		return nil, err
	}
''','''	var siblingTrees []uint
	if last, ok := r.lastChild[story.GetTree()]; ok {
		siblingTrees = []uint{last}
	}
'''),
 (C+'fact/repository.go','''	if len(siblingTrees) != 0 {
''','''	r.lastChild[story.GetTree()] = childStory.GetTree()

	if len(siblingTrees) != 0 {
''')],
 needs='a child story added to the same parent by a graph that was opened after the first child was created',
 breaks='the last child of a story is only remembered by the graph that created it, so the children created by different graphs are not linked to each other',
 demo=H%''+'''func TestDemo(t *testing.T) {
	s := newDemoStore()
	parent, err := NewGraph(s).CreateStory("house", "is big")
	if err != nil {
		t.Fatal(err)
	}
	child, err := parent.CreateChildStory("door", "is red")
	if err != nil {
		t.Fatal(err)
	}
	again, err := NewGraph(s).GetRemark(parent.GetIdentifier())
	if err != nil {
		t.Fatal(err)
	}
	other, err := again.CreateChildStory("roof", "is grey")
	if err != nil {
		t.Fatal(err)
	}
	has, err := child.HasNextStory()
	if err != nil || !has {
		t.Fatal(has, err)
	}
	next, err := child.GetNextStory()
	if err != nil || next.GetIdentifier() != other.GetIdentifier() {
		t.Fatal(err)
	}
}
'''),
dict(id='s19-fact-as-remark',property='C11',
 edits=[(C+'class/node/remark.go','	return targets[0] == r.identifier, nil','	return targets[0] >= r.identifier, nil')],
 needs='a remark asked for by the identifier of a fact or a story',
 breaks='the class test of remarks accepts facts and stories, so their identifiers give a remark made of nodes of another kind',
 demo=H%''+'''func TestDemo(t *testing.T) {
	s := newDemoStore()
	g := NewGraph(s)
	if _, err := g.CreateStory("cat", "sleeps"); err != nil {
		t.Fatal(err)
	}
	for _, class := range []uint{1, 2, 3, 4, 5, 7, 8} {
		for _, id := range s.sources[class] {
			if _, err := g.GetRemark(id); err == nil {
				t.Fatal("a remark of class", class)
			}
		}
	}
}
'''),
dict(id='s20-first-fact-of-parent',property='C12',
 edits=[(C+'fact/aggregate.go','''	firstFactIdentifier, err := story.GetTargetFact()
''','''	hasTargetTree, err := story.HasTargetTree()
	if err != nil {
		return nil, err
	}

	if hasTargetTree {
		parentStory, err := a.ToParentStory()
		if err != nil {
			return nil, err
		}

		if hasNextFact, err := parentStory.HasNextFact(); err != nil || hasNextFact {
			return parentStory, err
		}
	}

	firstFactIdentifier, err := story.GetTargetFact()
''')],
 needs='the first fact asked for in a child story whose parent has more than one fact',
 breaks='the first fact of the parent story is given',
 demo=H%''+'''func TestDemo(t *testing.T) {
	g := NewGraph(newDemoStore())
	parent, err := g.CreateStory("house", "is big")
	if err != nil {
		t.Fatal(err)
	}
	if _, err := parent.AddFactToStory("garden", "is small"); err != nil {
		t.Fatal(err)
	}
	child, err := parent.CreateChildStory("door", "is red")
	if err != nil {
		t.Fatal(err)
	}
	first, err := child.GetFirstFact()
	if err != nil || first.GetIdentifier() != child.GetIdentifier() {
		t.Fatal(err)
	}
}
'''),
dict(id='s21-fact-after-two',property='C14',
 edits=[(C+'fact/repository.go','''		lastFact, err = r.factStorage.ReadEntityByPosition(targetFact)
		if err != nil {
			return nil, err
		}
''','''		lastFact, err = r.factStorage.ReadEntityByPosition(targetFact)
		if err != nil {
			return nil, err
		}

		// the fact of the remark has been moved away from
		if lastFact.GetPosition() == fact.GetPosition()+4 {
			continue
		}

		if lastFact.GetClass() != nextFact.GetClass() {
			break
		}
''')],
 needs='several facts added to a story from its first remark',
 breaks='the search for the last fact stops after one step, so a later fact is linked from a fact that already has a next one',
 demo=H%''+'''func TestDemo(t *testing.T) {
	g := NewGraph(newDemoStore())
	first, err := g.CreateStory("house", "is big")
	if err != nil {
		t.Fatal(err)
	}
	want := []uint{}
	for _, o := range []string{"door", "roof", "wall", "floor", "garden"} {
		r, err := first.AddFactToStory(o, "is new")
		if err != nil {
			t.Fatal(err)
		}
		want = append(want, r.GetIdentifier())
	}
	next, err := first.GetNextFact()
	for _, id := range want {
		if err != nil || next.GetIdentifier() != id {
			t.Fatal(err)
		}
		if id != want[len(want)-1] {
			next, err = next.GetNextFact()
		}
	}
}
'''),
dict(id='s22-child-of-grandparent',property='C15',
 edits=[(C+'fact/repository.go','''	err = childStory.PointToTree(story.GetTree())
''','''	hasTargetTree, err := story.HasTargetTree()
	if err != nil {
		return nil, err
	}

	tree := story.GetTree()
	if hasTargetTree && len(siblingTrees) != 0 {
		tree, err = story.GetTargetTree()
		if err != nil {
			return nil, err
		}
	}

	err = childStory.PointToTree(tree)
''')],
 needs='a second child story created in a story that is itself a child',
 breaks='the second child gets the parent of its parent as its parent',
 demo=H%''+'''func TestDemo(t *testing.T) {
	s := newDemoStore()
	g := NewGraph(s)
	top, err := g.CreateStory("street", "is long")
	if err != nil {
		t.Fatal(err)
	}
	house, err := top.CreateChildStory("house", "is big")
	if err != nil {
		t.Fatal(err)
	}
	for _, o := range []string{"door", "roof"} {
		if _, err := house.CreateChildStory(o, "is new"); err != nil {
			t.Fatal(err)
		}
	}
	stories := s.sources[8]
	tree := func(i int) uint { return s.forth[s.forth[s.forth[stories[i]]]] }
	for _, child := range []int{2, 3} {
		if parents := s.targets[tree(child)]; len(parents) != 1 || parents[0] != tree(1) {
			t.Fatal("parents", parents)
		}
	}
}
'''),
]
