H='''package semnet

import (
%s
	"testing"
)

'''
C='internal/concrete/'
BUGS=[
dict(id='s01-astral-characters',property='C01',
 edits=[(C+'character/paths.go','fmt.Sprintf("%b", integer)','fmt.Sprintf("%b", uint16(integer))')],
 needs='a character outside the basic multilingual plane in the object or property',
 breaks='the upper bits of the code point are dropped when the path of bits is made, so the text reads back as another one',
 demo=H%''+'''func TestDemo(t *testing.T) {
	g := NewGraph(newDemoStore())
	r, err := g.CreateStory("smile 😀", "is wide")
	if err != nil {
		t.Fatal(err)
	}
	o, p, err := r.GetObjectAndProperty()
	if err != nil || o != "smile 😀" || p != "is wide" {
		t.Fatal(o, p, err)
	}
}
'''),
dict(id='s02-detail-first-common',property='C02',
 edits=[(C+'detail/factory.go','''				commonDetailIdentifiers = append(commonDetailIdentifiers, propertySourceDetail)
			}
''','''				commonDetailIdentifiers = append(commonDetailIdentifiers, propertySourceDetail)
			}
			break
''')],
 needs='an object-property pair stored again when its property already has a detail with another object',
 breaks='only the first detail of the property is compared, so a stored pair is not found and a second detail is added for it',
 demo=H%''+'''func TestDemo(t *testing.T) {
	s := newDemoStore()
	g := NewGraph(s)
	for _, o := range []string{"cat", "dog"} {
		if _, err := g.CreateStory(o, "sleeps"); err != nil {
			t.Fatal(err)
		}
	}
	before := len(s.sources[5])
	if _, err := g.CreateStory("dog", "sleeps"); err != nil {
		t.Fatal(err)
	}
	if len(s.sources[5]) != before {
		t.Fatal("a stored pair was stored again")
	}
}
'''),
dict(id='s03-word-sibling-error',property='C04',
 edits=[(C+'word/element.go','''		targetWord, err := e.wordStorage.ReadEntityByWord(targetWordIdentifier)
		if err != nil {
			return nil, err
		}
''','''		targetWord, err := e.wordStorage.ReadEntityByWord(targetWordIdentifier)
		if err != nil {
			continue
		}
''')],
 needs='a storage failure while one of the known continuations of a word is read',
 breaks='the continuation is skipped, the failure is not reported and a duplicate of a stored word is added',
 demo=H%''+'''func TestDemo(t *testing.T) {
	base := newDemoStore()
	if _, err := NewGraph(base).CreateStory("cat", "purrs"); err != nil {
		t.Fatal(err)
	}
	for n := 1; ; n++ {
		s := base.copy()
		s.failAt = n
		_, err := NewGraph(s).CreateStory("cat", "purrs")
		if !s.failed {
			break
		}
		if err == nil {
			t.Fatal("failure not reported at", s.log[n-1])
		}
	}
}
'''),
dict(id='s04-fact-without-story',property='C05',
 edits=[(C+'fact/entity.go','''	if len(targets) != 1 {
		return 0, fmt.Errorf("fact has wrong number of stories")
	}
''','''	if len(targets) > 1 {
		return 0, fmt.Errorf("fact has wrong number of stories")
	}
''')],
 needs='a fact whose link to its story is missing, for instance after a failure in the middle of an operation',
 breaks='the first element of an empty list is taken and the operation panics',
 demo=H%''+'''func TestDemo(t *testing.T) {
	s := newDemoStore()
	g := NewGraph(s)
	r, err := g.CreateStory("cat", "purrs")
	if err != nil {
		t.Fatal(err)
	}
	for _, fact := range append([]uint{}, s.sources[7]...) {
		story := s.forth[s.forth[s.forth[fact]]]
		for _, target := range append([]uint{}, s.targets[story]...) {
			s.Disconnect(story, target)
		}
	}
	if _, err := r.GetFirstFact(); err == nil {
		t.Fatal("no error")
	}
}
'''),
dict(id='s05-relink-details',property='C02',
 edits=[(C+'detail/factory.go','''		return f.storage.ReadEntityByPhrase(commonDetailIdentifiers[0])
''','''		entity, err := f.storage.ReadEntityByPhrase(commonDetailIdentifiers[0])
		if err != nil {
			return nil, err
		}

		// keep the links of the detail in place
		return entity, objectPhrase.AddTargetDetail(entity.GetRemark())
''')],
 needs='an object-property pair that is stored a second time',
 breaks='storing a stored pair adds a link from the object phrase to the remark node of the detail',
 demo=H%''+'''func TestDemo(t *testing.T) {
	s := newDemoStore()
	g := NewGraph(s)
	if _, err := g.CreateStory("cat", "purrs"); err != nil {
		t.Fatal(err)
	}
	last := s.next
	if _, err := g.CreateStory("cat", "purrs"); err != nil {
		t.Fatal(err)
	}
	classes := s.sources[5]
	if len(classes) != 1 {
		t.Fatal(classes)
	}
	remark := s.forth[s.forth[classes[0]]]
	for _, source := range s.sources[remark] {
		if source <= last {
			t.Fatal("new link", source, remark)
		}
	}
}
'''),
dict(id='s06-fetch-marks-bit',property='C07',
 edits=[(C+'character/element.go','''	return bit.Bit(), nil
}
''','''	hasCharacter, err := bit.HasTargetCharacter()
	if err != nil {
		return false, err
	}

	if !hasCharacter {
		// the bit starts no character yet
		err = bit.PointToCharacter(e.character.GetBit())
		if err != nil {
			return false, err
		}
	}

	return bit.Bit(), nil
}
''')],
 needs='a remark read from a store in which no character starts with the zero bit',
 breaks='reading the characters of a remark links the zero bit to the first character in which it is met',
 demo=H%''+'''func TestDemo(t *testing.T) {
	s := newDemoStore()
	g := NewGraph(s)
	r, err := g.CreateStory("cat", "purrs")
	if err != nil {
		t.Fatal(err)
	}
	s.changes = nil
	if _, _, err := r.GetObjectAndProperty(); err != nil {
		t.Fatal(err)
	}
	if len(s.changes) != 0 {
		t.Fatal(s.changes)
	}
}
'''),
dict(id='s07-class-of-remark',property='C08',
 edits=[(C+'class/node/remark.go','return targets[0] == r.identifier, nil','return targets[0] >= r.identifier, nil')],
 needs='the identifier of a fact or a story where a remark is expected',
 breaks='facts and stories are taken for remarks',
 demo=H%''+'''func TestDemo(t *testing.T) {
	s := newDemoStore()
	g := NewGraph(s)
	if _, err := g.CreateStory("cat", "purrs"); err != nil {
		t.Fatal(err)
	}
	for _, class := range []uint{7, 8} {
		for _, id := range s.sources[class] {
			if _, err := g.GetRemark(id); err == nil {
				t.Fatal("accepted", id)
			}
		}
	}
}
'''),
dict(id='s08-bits-by-listing-order',property='C20',
 edits=[(C+'bit/layer.go','''			if classIdentifiers[0] < classIdentifiers[1] {
				zeroClassIdentifier = classIdentifiers[0]
				oneClassIdentifier = classIdentifiers[1]
			} else {
				zeroClassIdentifier = classIdentifiers[1]
				oneClassIdentifier = classIdentifiers[0]
			}

			// zero

			_,''','''			zeroClassIdentifier = classIdentifiers[0]
			oneClassIdentifier = classIdentifiers[1]

			// zero

			_,''')],
 needs='a storage that does not list sources in the order in which they were added, and a graph opened over a store that another graph wrote',
 breaks='zero and one are exchanged, so every stored text reads differently',
 demo=H%''+'''func TestDemo(t *testing.T) {
	s := newDemoStore()
	r, err := NewGraph(s).CreateStory("cat", "purrs")
	if err != nil {
		t.Fatal(err)
	}
	s.reverse = true
	again, err := NewGraph(s).GetRemark(r.GetIdentifier())
	if err != nil {
		t.Fatal(err)
	}
	o, p, err := again.GetObjectAndProperty()
	if err != nil || o != "cat" || p != "purrs" {
		t.Fatalf("%q %q %v", o, p, err)
	}
}
'''),
dict(id='s09-text-cache',property='C10',
 edits=[(C+'remark/aggregate.go','''	detailIdentifier, err := a.remark.GetSourceDetail()
	if err != nil {
		return "", "", err
	}

	detail, err := a.detailRepository.Fetch(detailIdentifier)
	if err != nil {
		return "", "", err
	}

	return detail.GetObjectAndProperty()
}
''','''	if text, isKnown := texts[a.remark.GetClass()]; isKnown {
		return text[0], text[1], nil
	}

	detailIdentifier, err := a.remark.GetSourceDetail()
	if err != nil {
		return "", "", err
	}

	detail, err := a.detailRepository.Fetch(detailIdentifier)
	if err != nil {
		return "", "", err
	}

	object, property, err := detail.GetObjectAndProperty()
	if err != nil {
		return "", "", err
	}

	texts[a.remark.GetClass()] = [2]string{object, property}

	return object, property, nil
}

// texts of remarks never change
var texts = map[uint][2]string{}
''')],
 needs='a second graph over another storage in the same process',
 breaks='the texts of remarks are kept for the whole process, so a remark of one storage shows the text of a remark of another',
 demo=H%''+'''func TestDemo(t *testing.T) {
	for _, want := range []string{"purrs", "barks"} {
		r, err := NewGraph(newDemoStore()).CreateStory("it", want)
		if err != nil {
			t.Fatal(err)
		}
		_, p, err := r.GetObjectAndProperty()
		if err != nil || p != want {
			t.Fatal(p, err)
		}
	}
}
'''),
dict(id='s10-story-by-tree',property='C03',
 edits=[(C+'story/storage.go','''	position, _, err := s.storage.GetReference(tree)
	if err != nil {
		return Entity{}, err
	}

	fact, _, err := s.storage.GetReference(position)
	if err != nil {
		return Entity{}, err
	}
''','''	position, _, err := s.storage.GetReference(tree)
	if err != nil {
		return Entity{}, err
	}

	_, fact, err := s.storage.GetReference(position)
	if err != nil {
		return Entity{}, err
	}
''')],
 needs='a child story, whose parent is looked up by its tree node',
 breaks='a story read by its tree node takes its tree node for its fact node',
 demo=H%'\t"github.com/mem-memov/semnet/internal/concrete/story"'+'''func TestDemo(t *testing.T) {
	s := newDemoStore()
	g := NewGraph(s)
	r, err := g.CreateStory("cat", "purrs")
	if err != nil {
		t.Fatal(err)
	}
	one, err := r.CreateChildStory("dog", "barks")
	if err != nil {
		t.Fatal(err)
	}
	tree := s.forth[s.forth[s.forth[s.sources[8][0]]]]
	story, err := story.NewStorage(s).ReadEntityByTree(tree)
	if err != nil {
		t.Fatal(err)
	}
	if story.GetFact() != s.forth[s.sources[8][0]] {
		t.Fatal(story, one)
	}
}
'''.replace('import (','import (\n\t"github.com/mem-memov/semnet/internal/concrete/story"',1)),
dict(id='s11-tail-linked-first',property='C18',
 edits=[(C+'phrase/factory.go','''	err = newPhraseEntity.PointToWord(wordAggregate.GetPhrase())
	if err != nil {
		return nil, err
	}

	err = previousPhraseEntity.PointToPhrase(newPhraseEntity.GetPhrase())
	if err != nil {
		return nil, err
	}
''','''	err = previousPhraseEntity.PointToPhrase(newPhraseEntity.GetPhrase())
	if err != nil {
		return nil, err
	}

	err = newPhraseEntity.PointToWord(wordAggregate.GetPhrase())
	if err != nil {
		return nil, err
	}
''')],
 needs='a storage failure at the one call that links a new phrase to its word',
 breaks='the phrase before it keeps a link to a phrase without a word, and storing any text that starts with it fails for ever',
 demo=H%''+'''func TestDemo(t *testing.T) {
	base := newDemoStore()
	if _, err := NewGraph(base).CreateStory("a cat", "purrs"); err != nil {
		t.Fatal(err)
	}
	for n := 1; ; n++ {
		s := base.copy()
		s.failAt = n
		_, err := NewGraph(s).CreateStory("a dog", "barks")
		if !s.failed {
			break
		}
		if err == nil {
			t.Fatal("not reported")
		}
		if _, err := NewGraph(s).CreateStory("a dog", "barks"); err != nil {
			t.Fatal("after a failure at ", s.log[n-1], ": ", err)
		}
	}
}
'''),
dict(id='s12-inner-spaces',property='C19',
 edits=[(C+'phrase/paths.go','''	path := strings.Split(words, " ")
''','''	path := strings.Split(words, " ")

	if len(path) > 2 {
		// words may be set apart by several spaces
		path = append(path[:1], strings.Fields(words[len(path[0]):])...)
	}
''')],
 needs='a text of at least three parts with an empty one that is not the first',
 breaks='a doubled or trailing space is accepted and lost',
 demo=H%''+'''func TestDemo(t *testing.T) {
	g := NewGraph(newDemoStore())
	for _, text := range []string{"", " ", "a  cat", "a cat ", " a cat", "a b  c"} {
		if _, err := g.CreateStory("cat", text); err == nil {
			t.Fatalf("accepted %q", text)
		}
		if _, err := g.CreateStory(text, "cat"); err == nil {
			t.Fatalf("accepted %q", text)
		}
	}
}
'''),
dict(id='s13-layout-swapped',property='C21',
 edits=[(C+'fact/storage.go','''	err = s.storage.SetReference(class, remark)
	if err != nil {
		return Entity{}, err
	}

	err = s.storage.SetReference(remark, position)
	if err != nil {
		return Entity{}, err
	}

	err = s.storage.SetReference(position, story)
	if err != nil {
		return Entity{}, err
	}

	return Entity{
		class:    class,
		remark:   remark,
		position: position,
''','''	err = s.storage.SetReference(class, remark)
	if err != nil {
		return Entity{}, err
	}

	err = s.storage.SetReference(remark, position)
	if err != nil {
		return Entity{}, err
	}

	err = s.storage.SetReference(position, story)
	if err != nil {
		return Entity{}, err
	}

	return Entity{
		class:    class,
		position: remark,
		remark:   position,
'''),
(C+'fact/storage.go','''	return Entity{
		class:    class,
		remark:   remark,
		position: position,
		story:    story,
		storage:  s.storage,
	}, nil
}

func (s *Storage) ReadEntityByRemark(remark uint) (abstractFact.Entity, error) {

	class, position, err := s.storage.GetReference(remark)
	if err != nil {
		return Entity{}, err
	}

	_, story, err := s.storage.GetReference(position)
	if err != nil {
		return Entity{}, err
	}
''','''	return Entity{
		class:    class,
		position: remark,
		remark:   position,
		story:    story,
		storage:  s.storage,
	}, nil
}

func (s *Storage) ReadEntityByRemark(remark uint) (abstractFact.Entity, error) {

	position, story, err := s.storage.GetReference(remark)
	if err != nil {
		return Entity{}, err
	}

	class, _, err := s.storage.GetReference(position)
	if err != nil {
		return Entity{}, err
	}
'''),
(C+'fact/storage.go','''	remark, story, err := s.storage.GetReference(position)
	if err != nil {
		return Entity{}, err
	}

	class, _, err := s.storage.GetReference(remark)
	if err != nil {
		return Entity{}, err
	}
''','''	class, remark, err := s.storage.GetReference(position)
	if err != nil {
		return Entity{}, err
	}

	_, story, err := s.storage.GetReference(remark)
	if err != nil {
		return Entity{}, err
	}
'''),
(C+'fact/storage.go','''	position, _, err := s.storage.GetReference(story)
	if err != nil {
		return Entity{}, err
	}

	remark, _, err := s.storage.GetReference(position)
	if err != nil {
		return Entity{}, err
	}

	class, _, err := s.storage.GetReference(remark)
''','''	remark, _, err := s.storage.GetReference(story)
	if err != nil {
		return Entity{}, err
	}

	position, _, err := s.storage.GetReference(remark)
	if err != nil {
		return Entity{}, err
	}

	class, _, err := s.storage.GetReference(position)
''')],
 needs='a store written by the version before the change',
 breaks='the remark node and the position node of a fact change places in the chain, consistently for writing and reading, so older stores are misread',
 demo=H%''+'''func TestDemo(t *testing.T) {
	s := newDemoStore()
	r, err := NewGraph(s).CreateStory("cat", "purrs")
	if err != nil {
		t.Fatal(err)
	}
	// the fact node of the remark leads to the node right after the class node of the fact
	fact := s.forth[s.forth[s.forth[r.GetIdentifier()]]]
	if len(s.targets[fact]) != 1 {
		t.Fatal(s.targets[fact])
	}
	class := s.back[s.targets[fact][0]]
	if len(s.targets[class]) != 1 || s.targets[class][0] != 7 {
		t.Fatal("not the remark node of a fact", s.targets[fact])
	}
}
'''),
dict(id='s14-story-skips-last',property='C16',
 edits=[('output.go','''		if !hasNextRemark {
			break
		}

		factRemark, err = factRemark.GetNextRemark()
		if err != nil {
			return "", err
		}
''','''		if !hasNextRemark {
			break
		}

		nextRemark, err := factRemark.GetNextRemark()
		if err != nil {
			return "", err
		}

		if nextRemark.GetIdentifier() < factRemark.GetIdentifier() {
			break
		}

		factRemark = nextRemark
''')],
 needs='a remark followed by one with a smaller identifier',
 breaks='rendering stops before the end of the chain of remarks',
 demo=H%''+'''func TestDemo(t *testing.T) {
	s := newDemoStore()
	g := NewGraph(s)
	older, err := g.CreateStory("dog", "barks")
	if err != nil {
		t.Fatal(err)
	}
	r, err := g.CreateStory("cat", "purrs")
	if err != nil {
		t.Fatal(err)
	}
	position := func(id uint) uint { return s.forth[s.forth[id]] }
	s.Connect(position(r.GetIdentifier()), position(older.GetIdentifier()))
	text, err := NewOutput(g).GetStory(r)
	if err != nil || text != "cat purrs dog barks " {
		t.Fatalf("%q %v", text, err)
	}
}
'''),
dict(id='s15-next-story-guessed',property='C17',
 edits=[(C+'story/entity.go','''	if len(targets) != 1 {
		return 0, fmt.Errorf("story has wrong number of target facts")
	}

	return targets[0], nil
''','''	if len(targets) == 0 {
		return 0, fmt.Errorf("story has wrong number of target facts")
	}

	return targets[len(targets)-1], nil
''')],
 needs='a story that the storage links to several facts',
 breaks='one of several first facts is picked',
 demo=H%''+'''func TestDemo(t *testing.T) {
	s := newDemoStore()
	g := NewGraph(s)
	r, err := g.CreateStory("cat", "purrs")
	if err != nil {
		t.Fatal(err)
	}
	if _, err := g.CreateStory("dog", "barks"); err != nil {
		t.Fatal(err)
	}
	stories, facts := s.sources[8], s.sources[7]
	s.Connect(s.forth[stories[0]], s.forth[s.forth[s.forth[facts[1]]]])
	if _, err := r.GetFirstFact(); err == nil {
		t.Fatal("no error")
	}
}
'''),
dict(id='s16-added-remark-object',property='C13',
 edits=[(C+'remark/aggregate.go','''	aggregateObject, _, err := aggregateDetail.GetObjectAndProperty()
	if err != nil {
		return nil, err
	}

	detail, err := a.detailRepository.Provide(aggregateObject, property)
''','''	aggregateObject, aggregateProperty, err := aggregateDetail.GetObjectAndProperty()
	if err != nil {
		return nil, err
	}

	if property == aggregateObject {
		// nothing is its own property
		property = aggregateProperty
	}

	detail, err := a.detailRepository.Provide(aggregateObject, property)
''')],
 needs='a property equal to the object of the remark it is added to',
 breaks='the new remark has the property of the old one instead of the given one',
 demo=H%''+'''func TestDemo(t *testing.T) {
	g := NewGraph(newDemoStore())
	r, err := g.CreateStory("cat", "purrs")
	if err != nil {
		t.Fatal(err)
	}
	added, err := r.AddRemarkToFact("cat")
	if err != nil {
		t.Fatal(err)
	}
	o, p, err := added.GetObjectAndProperty()
	if err != nil || o != "cat" || p != "cat" {
		t.Fatal(o, p, err)
	}
}
'''),
]
