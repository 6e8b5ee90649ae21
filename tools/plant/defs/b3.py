H='''package semnet

import (
%s
	"testing"
)

'''
C='internal/concrete/'
BUGS=[
dict(id='s23-word-said-once',property='C25',
 edits=[(C+'phrase/aggregate.go','''		phraseElement, err = phraseElement.GetPreviousElement()
		if err != nil {
			return "", err
		}

		wordValue, err := phraseElement.ExtractWordValue()
		if err != nil {
			return "", err
		}

''','''		previousElement, err := phraseElement.GetPreviousElement()
		if err != nil {
			return "", err
		}

		wordValue, err := previousElement.ExtractWordValue()
		if err != nil {
			return "", err
		}

		// a repeated word is said once
		if wordValue == path[len(path)-1] {
			continue
		}

		phraseElement = previousElement

''')],
 needs='an object or property with the same word twice in a row',
 breaks='reading such a text back reads the same word again and again and never ends',
 demo=H%''+'''type endless struct {
	*demoStore
}

func (s endless) ReadSources(target uint) ([]uint, error) {
	if s.calls > 200000 {
		return nil, errDemo
	}
	return s.demoStore.ReadSources(target)
}

func (s endless) ReadTargets(source uint) ([]uint, error) {
	if s.calls > 200000 {
		return nil, errDemo
	}
	return s.demoStore.ReadTargets(source)
}

func (s endless) GetReference(source uint) (uint, uint, error) {
	if s.calls > 200000 {
		return 0, 0, errDemo
	}
	return s.demoStore.GetReference(source)
}

func TestDemo(t *testing.T) {
	s := endless{newDemoStore()}
	g := NewGraph(s)
	remark, err := g.CreateStory("house", "is very very big")
	if err != nil {
		t.Fatal(err)
	}
	s.calls = 0
	if _, _, err = remark.GetObjectAndProperty(); err != nil || s.calls > 200000 {
		t.Fatal(err, s.calls)
	}
}
'''),
dict(id='s24-errors-together',property='C24',
 edits=[(C+'detail/storage.go','''	err = objectPhrase.AddTargetDetail(phrase)
	if err != nil {
		return nil, err
	}

	err = propertyPhrase.AddSourceDetail(phrase)
	if err != nil {
		return nil, err
	}
''','''	for _, link := range []func(uint) error{objectPhrase.AddTargetDetail, propertyPhrase.AddSourceDetail} {
		if linkErr := link(phrase); linkErr != nil {
			err = linkErr
		}
	}
	if err != nil {
		return nil, err
	}
''')],
 needs='a storage failure exactly at the link from the object to a new detail',
 breaks='the detail is linked to its property although linking it to its object failed',
 demo=H%''+'''func TestDemo(t *testing.T) {
	for n := 1; ; n++ {
		s := newDemoStore()
		g := NewGraph(s)
		if _, err := g.CreateStory("house", "big"); err != nil {
			t.Fatal(err)
		}
		s.calls, s.failAt = 0, n
		before := 0
		failing := watch{s, &before}
		_, err := NewGraph(failing).CreateStory("tree", "is old")
		if !s.failed {
			return
		}
		if err == nil {
			t.Fatal("no error", n)
		}
		if len(s.changes) > before {
			t.Fatal("changes after the failed call", n, s.changes[before:])
		}
	}
}

// watch notes how many changes there were before the call that failed.
type watch struct {
	*demoStore
	before *int
}

func (w watch) note() {
	if !w.failed {
		*w.before = len(w.changes)
	}
}

func (w watch) Create() (uint, error) {
	w.note()
	return w.demoStore.Create()
}

func (w watch) Has(source uint) (bool, error) {
	w.note()
	return w.demoStore.Has(source)
}

func (w watch) ReadSources(target uint) ([]uint, error) {
	w.note()
	return w.demoStore.ReadSources(target)
}

func (w watch) ReadTargets(source uint) ([]uint, error) {
	w.note()
	return w.demoStore.ReadTargets(source)
}

func (w watch) SetReference(source uint, reference uint) error {
	w.note()
	return w.demoStore.SetReference(source, reference)
}

func (w watch) GetReference(source uint) (uint, uint, error) {
	w.note()
	return w.demoStore.GetReference(source)
}

func (w watch) Connect(source uint, target uint) error {
	w.note()
	return w.demoStore.Connect(source, target)
}
'''),
dict(id='s25-fact-in-next-story',property='C14',
 edits=[(C+'fact/repository.go','''	err = nextFact.PointToStory(story.GetFact())
	if err != nil {
		return nil, err
	}

	err = firstRemark.PointToFact(nextFact.GetRemark())
''','''	target := story
	hasTargetPosition, err := target.HasTargetPosition()
	if err != nil {
		return nil, err
	}

	if hasTargetPosition {
		targetPosition, err := target.GetTargetPosition()
		if err != nil {
			return nil, err
		}

		target, err = r.storyRepository.FetchByPosition(targetPosition)
		if err != nil {
			return nil, err
		}
	}

	err = nextFact.PointToStory(target.GetFact())
	if err != nil {
		return nil, err
	}

	err = firstRemark.PointToFact(nextFact.GetRemark())
''')],
 needs='a fact added to a child story after a second child story was created',
 breaks='the fact belongs to the next story, not to the story it was added to',
 demo=H%''+'''func TestDemo(t *testing.T) {
	g := NewGraph(newDemoStore())
	top, err := g.CreateStory("street", "is long")
	if err != nil {
		t.Fatal(err)
	}
	child, err := top.CreateChildStory("house", "is big")
	if err != nil {
		t.Fatal(err)
	}
	if _, err = top.CreateChildStory("garden", "is big"); err != nil {
		t.Fatal(err)
	}
	added, err := child.AddFactToStory("door", "is new")
	if err != nil {
		t.Fatal(err)
	}
	first, err := added.GetFirstFact()
	if err != nil || first.GetIdentifier() != child.GetIdentifier() {
		t.Fatal(err)
	}
}
'''),
dict(id='s26-remark-by-fact-node',property='C11',
 edits=[(C+'remark/repository.go','''	remark, err := r.remarkStorage.ReadEntityByClass(remarkIdentifier)
	if err != nil {
		return nil, err
	}
''','''	remark, err := r.remarkStorage.ReadEntityByClass(remarkIdentifier)
	if err != nil {
		remark, err = r.remarkStorage.ReadEntityByFact(remarkIdentifier)
		if err != nil {
			return nil, err
		}
	}

	remarkIdentifier = remark.GetClass()
''')],
 needs='the identifier of the last node of a remark, which a fact leads to',
 breaks='an identifier that is not the one of a remark is accepted',
 demo=H%''+'''func TestDemo(t *testing.T) {
	s := newDemoStore()
	g := NewGraph(s)
	remark, err := g.CreateStory("house", "is big")
	if err != nil {
		t.Fatal(err)
	}
	id := remark.GetIdentifier()
	last := s.forth[s.forth[s.forth[id]]]
	if r, err := g.GetRemark(id); err != nil || r.GetIdentifier() != id {
		t.Fatal("not found", err)
	}
	if _, err := g.GetRemark(last); err == nil {
		t.Fatal("the last node of a remark is taken for a remark")
	}
}
'''),
]
