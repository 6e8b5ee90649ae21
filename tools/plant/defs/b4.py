C='internal/concrete/'
H='''package semnet

import (
%s	"testing"
)

'''
E1='\tif err != nil {\n\t\treturn nil, err\n\t}\n'
F=C+'fact/repository.go'
BUGS=[
dict(id='s27-sixty-four-words',property='C01',
 edits=[(C+'phrase/aggregate.go','		path = append(path, wordValue)\n','		if len(path) < 64 {\n			path = append(path, wordValue)\n		}\n')],
 needs='an object or property of more than 64 words',
 breaks='the first words of a longer text are lost when it is read',
 demo=H%'	"strings"\n'+'''func TestDemo(t *testing.T) {
	object := "first" + strings.Repeat(" word", 70)
	r, err := NewGraph(newDemoStore()).CreateStory(object, "is long")
	if err != nil {
		t.Fatal(err)
	}
	o, p, err := r.GetObjectAndProperty()
	if err != nil || o != object || p != "is long" {
		t.Fatal(o, p, err)
	}
}
'''),
dict(id='s28-object-as-format',property='C16',
 edits=[('output.go','		buffer.WriteString(object)\n','		fmt.Fprintf(&buffer, object)\n'),('output.go','import "bytes"','import (\n	"bytes"\n	"fmt"\n)')],
 needs='an object that contains a percent sign',
 breaks='the story shows something else than the object',
 demo=H%'	"strings"\n'+'''func TestDemo(t *testing.T) {
	g := NewGraph(newDemoStore())
	r, err := g.CreateStory("100%d", "is all")
	if err != nil {
		t.Fatal(err)
	}
	text, err := NewOutput(g).GetStory(r)
	if err != nil || !strings.Contains(text, "100%d") || strings.Contains(text, "MISSING") {
		t.Fatal(text, err)
	}
}
'''),
dict(id='s29-end-of-file',property='C04',
 edits=[(C+'fact/storage.go','''func (s *Storage) ReadEntityByStory(story uint) (abstractFact.Entity, error) {

	position, _, err := s.storage.GetReference(story)
	if err != nil {''','''func (s *Storage) ReadEntityByStory(story uint) (abstractFact.Entity, error) {

	position, _, err := s.storage.GetReference(story)
	if err != nil && !errors.Is(err, io.EOF) {'''),(C+'fact/storage.go','import (','import (\n	"errors"\n	"io"\n')],
 needs='a storage kept in a file that is cut short and reports io.EOF while the fact of a story is looked up',
 breaks='the failure is not reported; the read goes on with a wrong node',
 demo=H%'	"errors"\n	"io"\n'+'''type cutStore struct {
	*demoStore
	cut int
}

func (s *cutStore) GetReference(source uint) (uint, uint, error) {
	s.cut--
	if s.cut == 0 {
		return 0, 0, io.EOF
	}
	return s.demoStore.GetReference(source)
}

func TestDemo(t *testing.T) {
	s := &cutStore{demoStore: newDemoStore()}
	g := NewGraph(s)
	top, err := g.CreateStory("street", "is long")
	if err != nil {
		t.Fatal(err)
	}
	child, err := top.CreateChildStory("house", "is big")
	if err != nil {
		t.Fatal(err)
	}
	for i := 1; i < 40; i++ {
		s.cut = i
		_, err := child.GetFirstFact()
		if s.cut <= 0 && !errors.Is(err, io.EOF) {
			t.Fatal(i, err)
		}
	}
}
'''),
dict(id='s30-next-with-children',property='C15',
 edits=[(C+'fact/aggregate.go','''	nextFactIdentifier, err := nextStory.GetTargetFact()
	if err != nil {
		return nil, err
	}
''','''	hasChildren, err := nextStory.HasSourceTree()
	if err != nil {
		return nil, err
	}

	// a story that goes deeper is read after the ones beside it
	hasMore, err := nextStory.HasTargetPosition()
	if err != nil {
		return nil, err
	}

	if hasChildren && hasMore {
		positionIdentifier, err := nextStory.GetTargetPosition()
		if err != nil {
			return nil, err
		}

		nextStory, err = a.storyRepository.FetchByPosition(positionIdentifier)
		if err != nil {
			return nil, err
		}
	}

	nextFactIdentifier, err := nextStory.GetTargetFact()
	if err != nil {
		return nil, err
	}
''')],
 needs='three child stories, the one in the middle with a child story of its own',
 breaks='going from story to story leaves one out',
 demo=H%''+'''func TestDemo(t *testing.T) {
	g := NewGraph(newDemoStore())
	top, err := g.CreateStory("street", "is long")
	if err != nil {
		t.Fatal(err)
	}
	names := []string{"house", "garden", "gate"}
	var first, middle uint
	for i, name := range names {
		child, err := top.CreateChildStory(name, "is new")
		if err != nil {
			t.Fatal(err)
		}
		if i == 0 {
			first = child.GetIdentifier()
		}
		if i == 1 {
			middle = child.GetIdentifier()
			if _, err := child.CreateChildStory("flower", "is red"); err != nil {
				t.Fatal(err)
			}
		}
	}
	r, err := g.GetRemark(first)
	if err != nil {
		t.Fatal(err)
	}
	next, err := r.GetNextStory()
	if err != nil || next.GetIdentifier() != middle {
		t.Fatal("the second story is left out", err)
	}
}
'''),
dict(id='s31-detail-healed',property='C07',
 edits=[(C+'detail/entity.go','	if len(targets) != 1 {\n','	if len(targets) == 0 {\n		if err := e.storage.Connect(e.phrase, sources[0]); err != nil {\n			return 0, 0, err\n		}\n\n		targets = sources\n	}\n\n	if len(targets) != 1 {\n')],
 needs='a detail whose link to its property is missing, as after a failure in the middle of an operation',
 breaks='reading the detail changes the storage',
 demo=H%''+'''func TestDemo(t *testing.T) {
	s := newDemoStore()
	r, err := NewGraph(s).CreateStory("street", "is long")
	if err != nil {
		t.Fatal(err)
	}
	for node := uint(1); node <= s.next; node++ {
		for _, target := range s.targets[node] {
			c := s.copy()
			if err := c.Disconnect(node, target); err != nil {
				t.Fatal(err)
			}
			before := c.dump()
			a, err := NewGraph(c).GetRemark(r.GetIdentifier())
			if err == nil {
				a.GetObjectAndProperty()
			}
			if c.dump() != before {
				t.Fatal("reading changed the storage", node, target)
			}
		}
	}
}
'''),
dict(id='s32-cleanup-after-failure',property='C24',
 edits=[(C+'detail/storage.go','	err = propertyPhrase.AddSourceDetail(phrase)\n'+E1,'	err = propertyPhrase.AddSourceDetail(phrase)\n	if err != nil {\n		_ = s.storage.SetReference(phrase, class)\n\n		return nil, err\n	}\n')],
 needs='a storage failure exactly at the link from the property to a new detail',
 breaks='the storage is changed after it has reported a failure',
 demo=H%''+'''func TestDemo(t *testing.T) {
	for i := 1; i < 2000; i++ {
		s := newDemoStore()
		s.failAt = i
		_, err := NewGraph(s).CreateStory("a b", "c")
		if !s.failed {
			return
		}
		if err == nil || len(s.log) != i {
			t.Fatal(i, err, s.log[i-1:])
		}
	}
}
'''),
dict(id='s33-link-retried',property='C25',
 edits=[(C+'remark/entity.go','	return e.storage.Connect(e.fact, fact)','	for {\n		err := e.storage.Connect(e.fact, fact)\n		if err == nil {\n			return nil\n		}\n	}')],
 needs='a storage that keeps failing from the link of a remark to its fact on',
 breaks='the operation never ends',
 demo=H%'	"errors"\n	"time"\n'+'''type fullStore struct {
	*demoStore
	left int
}

func (s *fullStore) Connect(source uint, target uint) error {
	if s.left--; s.left < 0 {
		return errors.New("full")
	}
	return s.demoStore.Connect(source, target)
}

func TestDemo(t *testing.T) {
	done := make(chan bool)
	go func() {
		for i := 0; i < 300; i++ {
			NewGraph(&fullStore{demoStore: newDemoStore(), left: i}).CreateStory("a", "b")
		}
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		t.Fatal("does not end")
	}
}
'''),
dict(id='s34-same-length-word',property='C02',
 edits=[(C+'phrase/element.go','	// use existing\n','''	// a single continuation needs no reading of whole texts
	if len(targetPhrases) == 1 {
		only := Element{
			phrase:          targetPhrases[0],
			phraseStorage:   e.phraseStorage,
			phraseFactory:   e.phraseFactory,
			classRepository: e.classRepository,
			wordRepository:  e.wordRepository,
		}

		value, err := only.ExtractWordValue()
		if err != nil {
			return nil, err
		}

		if len(value) > 3 && strings.HasPrefix(wordValue, value) {
			return only, nil
		}
	}

	// use existing
'''),(C+'phrase/element.go','import (','import (\n	"strings"\n')],
 needs='two texts with the same beginning, the next word of the second longer than that of the first and starting with it',
 breaks='two different texts share one phrase',
 demo=H%''+'''func TestDemo(t *testing.T) {
	g := NewGraph(newDemoStore())
	a, err := g.CreateStory("the book", "is thin")
	if err != nil {
		t.Fatal(err)
	}
	b, err := g.CreateStory("the bookcase", "is thin")
	if err != nil {
		t.Fatal(err)
	}
	o, p, err := b.GetObjectAndProperty()
	if err != nil || o != "the bookcase" || p != "is thin" {
		t.Fatal(o, p, err)
	}
	o, p, err = a.GetObjectAndProperty()
	if err != nil || o != "the book" || p != "is thin" {
		t.Fatal(o, p, err)
	}
}
'''),
dict(id='s35-failure-then-next',property='C04',
 edits=[('output.go','''		hasNextRemark, err := factRemark.HasNextRemark()
		if err != nil {
			return "", err
		}
''','''		hasNextRemark, err := factRemark.HasNextRemark()
		if err != nil {
			return buffer.String(), nil
		}
''')],
 needs='a storage failure exactly where a story asks whether there is one more remark',
 breaks='a part of a story is given as the whole of it',
 demo=H%''+'''func TestDemo(t *testing.T) {
	s := newDemoStore()
	g := NewGraph(s)
	r, err := g.CreateStory("street", "is long")
	if err != nil {
		t.Fatal(err)
	}
	for i := 1; i < 2000; i++ {
		c := s.copy()
		c.failAt = i
		g := NewGraph(c)
		r, err := g.GetRemark(r.GetIdentifier())
		if err == nil {
			_, err = NewOutput(g).GetStory(r)
		}
		if !c.failed {
			return
		}
		if err == nil {
			t.Fatal("failure not reported", i)
		}
	}
}
'''),
]
