R=[]
C='internal/concrete/'
def r(id,*edits): R.append(dict(id=id,edits=list(edits)))

r('x01-character-shift-index',(C+'character/aggragate.go','@func (a Aggregate) Extract','''
func (a Aggregate) Extract() (rune, error) {

	element := a.characterElements.CreateLastElement(a.character)

	var integer int32
	var position uint

	for {
		bitValue, err := element.ExtractBitValue()
		if err != nil {
			return 0, err
		}

		if bitValue {
			integer |= 1 << position
		}
		position++

		hasPrevious, err := element.HasPreviousElement()
		if err != nil {
			return 0, err
		}

		if !hasPrevious {
			return integer, nil
		}

		element, err = element.GetPreviousElement()
		if err != nil {
			return 0, err
		}
	}
}
'''))

r('x02-word-decode',(C+'word/paths.go','	path := []rune(word)\n\n	if len(path) < 1 {\n		return path, fmt.Errorf','	if word == "" {\n		return path{}, fmt.Errorf'),
 (C+'word/paths.go','	return path, nil','''	var characters path
	for len(word) > 0 {
		character, size := utf8.DecodeRuneInString(word)
		characters = append(characters, character)
		word = word[size:]
	}

	return characters, nil'''),(C+'word/paths.go','	"fmt"\n','	"fmt"\n	"unicode/utf8"\n'))

r('x03-word-range-count',(C+'word/paths.go','	path := []rune(word)\n','''	path := make(path, 0, utf8.RuneCountInString(word))
	for _, character := range word {
		path = append(path, character)
	}
'''),(C+'word/paths.go','	"fmt"\n','	"fmt"\n	"unicode/utf8"\n'))

r('x04-word-empty-first',(C+'word/paths.go','''	path := []rune(word)

	if len(path) < 1 {
		return path, fmt.Errorf("no character in word cluster: %s", word)
	}

	return path, nil''','''	if len(word) == 0 {
		return nil, fmt.Errorf("no character in word cluster: %s", word)
	}

	return path(word), nil'''))

r('x05-phrase-index-loop',(C+'phrase/paths.go','@func (p *paths) collect','''
func (p *paths) collect(words string) (path, error) {

	var result path

	for {
		end := strings.IndexByte(words, ' ')
		if end < 0 {
			return append(result, words), nil
		}

		result = append(result, words[:end])
		words = words[end+1:]
	}
}
'''),(C+'phrase/paths.go','	"fmt"\n',''))

r('x06-output-helper-buffer',('output.go','''		buffer.WriteString(object)
		buffer.WriteString(" ")
		buffer.WriteString(property)
		buffer.WriteString(" ")
''','''		writeWords(&buffer, object, property)
'''),('output.go','func (o *Output) GetStory','''func writeWords(buffer *bytes.Buffer, words ...string) {

	for _, word := range words {
		buffer.WriteString(word)
		buffer.WriteString(" ")
	}
}

func (o *Output) GetStory'''))

r('x07-output-io',('output.go','''		buffer.WriteString(object)
		buffer.WriteString(" ")
		buffer.WriteString(property)
		buffer.WriteString(" ")
''','''		if _, err = io.WriteString(&buffer, object+" "+property+" "); err != nil {
			return "", err
		}
'''),('output.go','import "bytes"','import (\n	"bytes"\n	"io"\n)'))

r('x08-fact-steps',(C+'fact/repository.go','''	err = firstFact.PointToStory(childStory.GetFact())
	if err != nil {
		return nil, err
	}

	err = childStory.PointToFact(firstFact.GetStory())
	if err != nil {
		return nil, err
	}

	err = firstRemark.PointToFact(firstFact.GetRemark())
	if err != nil {
		return nil, err
	}

	err = firstFact.PointToRemark(firstRemark.GetFact())
	if err != nil {
		return nil, err
	}

	err = childStory.PointToTree(story.GetTree())
	if err != nil {
		return nil, err
	}
''','''	links := []struct {
		point  func(uint) error
		target uint
	}{
		{firstFact.PointToStory, childStory.GetFact()},
		{childStory.PointToFact, firstFact.GetStory()},
		{firstRemark.PointToFact, firstFact.GetRemark()},
		{firstFact.PointToRemark, firstRemark.GetFact()},
		{childStory.PointToTree, story.GetTree()},
	}

	for _, link := range links {
		if err := link.point(link.target); err != nil {
			return nil, err
		}
	}
'''))

r('x09-class-closure',(C+'class/repository.go','@func (r *Repository) ProvideEntity','''
func (r *Repository) ProvideEntity() (class.Entity, error) {

	if r.isInitialized {
		return r.entity, nil
	}

	hasFirstNode, err := r.storage.Has(bitIdentifier)
	if err != nil {
		return Entity{}, err
	}

	if !hasFirstNode {
		previous := uint(0)
		next := func(expected uint, name string) error {
			result, err := r.storage.Create()
			if err != nil {
				return err
			}
			if result != expected {
				return fmt.Errorf("wrong %s class node %d", name, result)
			}
			if previous != 0 {
				if err := r.storage.SetReference(previous, result); err != nil {
					return err
				}
			}
			previous = result
			return nil
		}

		if err := next(bitIdentifier, "bit"); err != nil {
			return Entity{}, err
		}
		if err := next(characterIdentifier, "character"); err != nil {
			return Entity{}, err
		}
		if err := next(wordIdentifier, "word"); err != nil {
			return Entity{}, err
		}
		if err := next(phraseIdentifier, "phrase"); err != nil {
			return Entity{}, err
		}
		if err := next(detailIdentifier, "detail"); err != nil {
			return Entity{}, err
		}
		if err := next(remarkIdentifier, "position"); err != nil {
			return Entity{}, err
		}
		if err := next(factIdentifier, "fact"); err != nil {
			return Entity{}, err
		}
		if err := next(storyIdentifier, "story"); err != nil {
			return Entity{}, err
		}
	}

	r.entity = Entity{
		bitNode:       node.NewBit(bitIdentifier, r.storage),
		characterNode: node.NewCharacter(characterIdentifier, r.storage),
		wordNode:      node.NewWord(wordIdentifier, r.storage),
		phraseNode:    node.NewPhrase(phraseIdentifier, r.storage),
		detailNode:    node.NewDetail(detailIdentifier, r.storage),
		remarkNode:    node.NewRemark(remarkIdentifier, r.storage),
		factNode:      node.NewFact(factIdentifier, r.storage),
		storyNode:     node.NewStory(storyIdentifier, r.storage),
	}

	return r.entity, nil
}
'''))

RM=C+'remark/aggregate.go'
r('x10-remark-wrap',
 (RM,'@func (a Aggregate) HasNextFact','''
func (a Aggregate) fetchFact() (abstractFact.Aggregate, error) {

	factIdentifier, err := a.remark.GetTargetFact()
	if err != nil {
		return nil, err
	}

	return a.factRepository.FetchByRemark(factIdentifier)
}

func (a Aggregate) read(by func(uint) (abstractRemark.Entity, error), identifier uint) (abstractRemark.Aggregate, error) {

	remark, err := by(identifier)
	if err != nil {
		return nil, err
	}

	a.remark = remark

	return a, nil
}

func (a Aggregate) firstRemarkOf(fact abstractFact.Aggregate, err error) (abstractRemark.Aggregate, error) {

	if err != nil {
		return nil, err
	}

	identifier, err := fact.GetFirstRemark()
	if err != nil {
		return nil, err
	}

	return a.read(a.remarkStorage.ReadEntityByFact, identifier)
}

func (a Aggregate) HasNextFact() (bool, error) {

	fact, err := a.fetchFact()
	if err != nil {
		return false, err
	}

	return fact.HasNextFact()
}
'''),
 (RM,'@func (a Aggregate) GetNextFact','''
func (a Aggregate) GetNextFact() (abstractRemark.Aggregate, error) {

	fact, err := a.fetchFact()
	if err != nil {
		return nil, err
	}

	return a.firstRemarkOf(fact.ToNextFact())
}
'''),
 (RM,'@func (a Aggregate) GetFirstFact','''
func (a Aggregate) GetFirstFact() (abstractRemark.Aggregate, error) {

	fact, err := a.fetchFact()
	if err != nil {
		return nil, err
	}

	return a.firstRemarkOf(fact.ToFirstFact())
}
'''),
 (RM,'@func (a Aggregate) HasNextStory','''
func (a Aggregate) HasNextStory() (bool, error) {

	fact, err := a.fetchFact()
	if err != nil {
		return false, err
	}

	return fact.HasNextStory()
}
'''),
 (RM,'@func (a Aggregate) GetNextStory','''
func (a Aggregate) GetNextStory() (abstractRemark.Aggregate, error) {

	fact, err := a.fetchFact()
	if err != nil {
		return nil, err
	}

	return a.firstRemarkOf(fact.ToNextStory())
}
'''))

r('x11-storage-via-class',
 (C+'fact/storage.go','@func (s *Storage) ReadEntityByRemark','''
func (s *Storage) ReadEntityByRemark(remark uint) (abstractFact.Entity, error) {

	return s.back(remark, 1)
}

// back walks to the class node and reads the chain from there.
func (s *Storage) back(node uint, steps int) (abstractFact.Entity, error) {

	for ; steps > 0; steps-- {
		previous, _, err := s.storage.GetReference(node)
		if err != nil {
			return Entity{}, err
		}

		node = previous
	}

	return s.ReadEntityByClass(node)
}
'''),
 (C+'fact/storage.go','@func (s *Storage) ReadEntityByPosition','''
func (s *Storage) ReadEntityByPosition(position uint) (abstractFact.Entity, error) {

	return s.back(position, 2)
}
'''),
 (C+'fact/storage.go','@func (s *Storage) ReadEntityByStory','''
func (s *Storage) ReadEntityByStory(story uint) (abstractFact.Entity, error) {

	return s.back(story, 3)
}
'''))

r('x12-fact-nodes-array',
 (C+'fact/entity.go','''	class    uint
	remark   uint
	position uint
	story    uint
	storage  abstract.Storage
}
''','''	nodes   [4]uint
	storage abstract.Storage
}

const (
	classNode = iota
	remarkNode
	positionNode
	storyNode
)
'''),
 (C+'fact/entity.go','e.class','e.nodes[classNode]','all'),(C+'fact/entity.go','e.remark','e.nodes[remarkNode]','all'),
 (C+'fact/entity.go','e.position','e.nodes[positionNode]','all'),(C+'fact/entity.go','e.story','e.nodes[storyNode]','all'),
 (C+'fact/storage.go','''		class:    class,
		remark:   remark,
		position: position,
		story:    story,
		storage:  s.storage,
''','''		nodes:   [4]uint{class, remark, position, story},
		storage: s.storage,
''','all'))

r('x13-story-nodes-pointer',
 (C+'story/entity.go','''	class    uint
	fact     uint
	position uint
	tree     uint
	storage  abstract.Storage
}
''','''	*nodes
	storage abstract.Storage
}

type nodes struct {
	class    uint
	fact     uint
	position uint
	tree     uint
}
'''),
 (C+'story/storage.go','''		class:    class,
		fact:     fact,
		position: position,
		tree:     tree,
		storage:  s.storage,
''','''		nodes:   &nodes{class, fact, position, tree},
		storage: s.storage,
''','all'))

r('x14-bit-fetch-provide',(C+'bit/repository.go','@func (r *Repository) Fetch','''
func (r *Repository) Fetch(identifier uint) (abstractBit.Entity, error) {

	for _, value := range []bool{false, true} {
		entity, err := r.Provide(value)
		if err != nil {
			return Entity{}, err
		}

		if entity.GetCharacter() == identifier {
			return entity, nil
		}
	}

	return Entity{}, fmt.Errorf("wrong identifier in bit layer %d", identifier)
}
'''))

# sticky errors
r('x15-sticky-create',
 (C+'fact/storage.go','@func (s *Storage) CreateEntity','''
type chain struct {
	storage abstract.Storage
	last    uint
	err     error
}

func (c *chain) create() uint {

	if c.err != nil {
		return 0
	}

	node, err := c.storage.Create()
	if err != nil {
		c.err = err
		return 0
	}

	return node
}

func (c *chain) link(node uint) {

	if c.err == nil {
		c.err = c.storage.SetReference(c.last, node)
		c.last = node
	}
}

func (s *Storage) CreateEntity(class uint) (abstractFact.Entity, error) {

	c := &chain{storage: s.storage, last: class}

	remark := c.create()
	position := c.create()
	story := c.create()

	c.link(remark)
	c.link(position)
	c.link(story)

	if c.err != nil {
		return Entity{}, c.err
	}

	return Entity{class, remark, position, story, s.storage}, nil
}
'''))

r('x16-sticky-links',
 (C+'fact/repository.go','''	err = nextFact.PointToStory(story.GetFact())
	if err != nil {
		return nil, err
	}

	err = firstRemark.PointToFact(nextFact.GetRemark())
	if err != nil {
		return nil, err
	}

	err = nextFact.PointToRemark(firstRemark.GetFact())
	if err != nil {
		return nil, err
	}
''','''	l := linker{}
	l.link(nextFact.PointToStory, story.GetFact())
	l.link(firstRemark.PointToFact, nextFact.GetRemark())
	l.link(nextFact.PointToRemark, firstRemark.GetFact())
	if l.err != nil {
		return nil, l.err
	}
'''),(C+'fact/repository.go','func (r *Repository) FetchByRemark','''type linker struct {
	err error
}

func (l *linker) link(point func(uint) error, target uint) {

	if l.err != nil {
		return
	}

	l.err = point(target)
}

func (r *Repository) FetchByRemark'''))

r('x17-sticky-reader',
 (C+'detail/entity.go','@func (e Entity) GetObjectAndPropertyPhrases','''
func (e Entity) GetObjectAndPropertyPhrases() (uint, uint, error) {

	var err error

	single := func(name string, read func(uint) ([]uint, error)) uint {
		if err != nil {
			return 0
		}

		var phrases []uint
		phrases, err = read(e.phrase)
		if err != nil {
			return 0
		}

		if len(phrases) != 1 {
			err = fmt.Errorf("detail has wrong number of %s phrases: %d at %d", name, len(phrases), e.phrase)
			return 0
		}

		return phrases[0]
	}

	object := single("source", e.storage.ReadSources)
	property := single("target", e.storage.ReadTargets)
	if err != nil {
		return 0, 0, err
	}

	return object, property, nil
}
'''))

r('x18-detail-cases',(C+'detail/factory.go','''	switch len(commonDetailIdentifiers) {
	case 0:
		return f.storage.CreateEntity(classEntity, objectPhrase, propertyPhrase)
	case 1:
		return f.storage.ReadEntityByPhrase(commonDetailIdentifiers[0])
	default:
		return Entity{}, fmt.Errorf("phrases have too many common details")
	}''','''	total := len(commonDetailIdentifiers)

	if total > 1 {
		return nil, fmt.Errorf("phrases have too many common details")
	}

	for _, commonDetailIdentifier := range commonDetailIdentifiers {
		return f.storage.ReadEntityByPhrase(commonDetailIdentifier)
	}

	return f.storage.CreateEntity(classEntity, objectPhrase, propertyPhrase)'''))

r('x19-remark-attach',
 (RM,'@func (a Aggregate) AddFactToStory','''
func (a Aggregate) AddFactToStory(object string, property string) (abstractRemark.Aggregate, error) {

	return a.attach(object, property, a.factRepository.CreateNextFact)
}

func (a Aggregate) attach(
	object string,
	property string,
	createFact func(uint, abstractFact.Remark) (abstractFact.Aggregate, error),
) (abstractRemark.Aggregate, error) {

	class, err := a.classRepository.ProvideEntity()
	if err != nil {
		return nil, err
	}

	classIdentifier, err := class.CreateRemark()
	if err != nil {
		return nil, err
	}

	remark, err := a.remarkStorage.CreateEntity(classIdentifier)
	if err != nil {
		return nil, err
	}

	detail, err := a.detailRepository.Provide(object, property)
	if err != nil {
		return nil, err
	}

	if err := detail.PointToRemark(remark.GetDetail()); err != nil {
		return nil, err
	}

	factIdentifier, err := a.remark.GetTargetFact()
	if err != nil {
		return nil, err
	}

	if _, err := createFact(factIdentifier, remark); err != nil {
		return nil, err
	}

	attached := a
	attached.remark = remark

	return attached, nil
}
'''),(RM,'@func (a Aggregate) CreateChildStory','''
func (a Aggregate) CreateChildStory(object string, property string) (abstractRemark.Aggregate, error) {

	return a.attach(object, property, a.factRepository.CreateChildStoryFact)
}
'''))

r('x20-graph-wrap',('graph.go','@func (g *Graph) CreateStory','''
func (g *Graph) CreateStory(object string, property string) (Remark, error) {

	return wrap(g.remarkRepository.CreateFirstUserRemark(object, property))
}
'''),('graph.go','@func (g *Graph) GetRemark','''
func (g *Graph) GetRemark(remarkIdentifier uint) (Remark, error) {

	return wrap(g.remarkRepository.GetRemark(remarkIdentifier))
}

func wrap(aggregate abstractRemark.Aggregate, err error) (remark Remark, _ error) {

	if err == nil {
		remark.Aggregate = aggregate
	}

	return remark, err
}
'''),('graph.go','	"github.com/mem-memov/semnet/internal/abstract"\n','	"github.com/mem-memov/semnet/internal/abstract"\n	abstractRemark "github.com/mem-memov/semnet/internal/abstract/remark"\n'))

r('x21-output-for-post',('output.go','@func (o *Output) GetStory','''
func (o *Output) GetStory(remark Remark) (string, error) {

	var text string

	factRemark, err := remark.GetFirstFact()

	for has := true; err == nil && has; {
		var object, property string

		object, property, err = factRemark.GetObjectAndProperty()
		if err != nil {
			break
		}

		text += object + " " + property + " "

		has, err = factRemark.HasNextRemark()
		if err != nil || !has {
			break
		}

		factRemark, err = factRemark.GetNextRemark()
	}

	if err != nil {
		return "", err
	}

	return text, nil
}
'''),('output.go','import "bytes"\n',''))

r('x22-element-embeds-elements',
 (C+'character/element.go','''	character        abstractCharacter.Entity
	characterStorage abstractCharacter.Storage
	characterFactory abstractCharacter.Factory
	classRepository  abstractClass.Repository
	bitRepository    abstractBit.Repository
''','''	*Elements
	character abstractCharacter.Entity
'''),
 (C+'character/element.go','''Element{
				character:        targetCharacter,
				characterStorage: e.characterStorage,
				characterFactory: e.characterFactory,
				classRepository:  e.classRepository,
				bitRepository:    e.bitRepository,
			}''','e.CreateLastElement(targetCharacter)'),
 (C+'character/element.go','''Element{
		character:        newCharacter,
		characterStorage: e.characterStorage,
		characterFactory: e.characterFactory,
		classRepository:  e.classRepository,
		bitRepository:    e.bitRepository,
	}''','e.CreateLastElement(newCharacter)'),
 (C+'character/element.go','''Element{
		character:        character,
		characterStorage: e.characterStorage,
		characterFactory: e.characterFactory,
		classRepository:  e.classRepository,
		bitRepository:    e.bitRepository,
	}''','e.CreateLastElement(character)'),
 (C+'character/element.go','	abstractBit "github.com/mem-memov/semnet/internal/abstract/bit"\n',''),
 (C+'character/element.go','	abstractClass "github.com/mem-memov/semnet/internal/abstract/class"\n',''),
 (C+'character/elements.go','''Element{
		character:        character,
		characterStorage: e.characterStorage,
		characterFactory: e.characterFactory,
		classRepository:  e.classRepository,
		bitRepository:    e.bitRepository,
	}''','''Element{e, character}''','all'))

r('x23-factory-create',(C+'word/factory.go','@func (f *Factory) CreateTailEntity','''
func (f *Factory) CreateTailEntity(
	classEntity abstractClass.Entity,
	characterAggregate abstractCharacter.Aggregate,
	previousWordEntity abstractWord.Entity,
) (abstractWord.Entity, error) {

	return f.create(classEntity, characterAggregate, func(word abstractWord.Entity) error {
		return previousWordEntity.PointToWord(word.GetWord())
	})
}

func (f *Factory) create(
	classEntity abstractClass.Entity,
	characterAggregate abstractCharacter.Aggregate,
	attach func(abstractWord.Entity) error,
) (abstractWord.Entity, error) {

	class, err := classEntity.CreateWord()
	if err != nil {
		return nil, err
	}

	word, err := f.wordStorage.CreateEntity(class)
	if err != nil {
		return nil, err
	}

	if err = word.PointToCharacter(characterAggregate.GetWord()); err == nil {
		err = attach(word)
	}

	if err != nil {
		return nil, err
	}

	return word, nil
}
'''),(C+'word/factory.go','''		class, err := classEntity.CreateWord()
		if err != nil {
			return nil, err
		}

		wordEntity, err := f.wordStorage.CreateEntity(class)
		if err != nil {
			return nil, err
		}

		err = wordEntity.PointToCharacter(characterAggregate.GetWord())
		if err != nil {
			return nil, err
		}

		err = characterAggregate.PointToWord(wordEntity.GetCharacter())
		if err != nil {
			return nil, err
		}

		return wordEntity, nil
''','''		return f.create(classEntity, characterAggregate, func(word abstractWord.Entity) error {
			return characterAggregate.PointToWord(word.GetCharacter())
		})
'''))

r('x24-no-paths',(C+'word/repository.go','r.paths.collect(word)','collectCharacters(word)'),
 (C+'word/repository.go','		paths:        newPaths(),\n',''),(C+'word/repository.go','	paths        *paths\n',''),(C+'word/repository.go','		paths:        r.paths,\n','','all'),
 (C+'word/aggregate.go','	paths        *paths\n',''),(C+'word/aggregate.go','path := a.paths.create(characterValue)','path := path{characterValue}'),
 (C+'word/paths.go','@func (p *paths) collect','''
func collectCharacters(word string) (path, error) {

	if characters := []rune(word); len(characters) > 0 {
		return characters, nil
	}

	return nil, fmt.Errorf("no character in word cluster: %s", word)
}
'''),(C+'word/paths.go','@func (p *paths) create','\n'),(C+'word/paths.go','@func newPaths','\n'),(C+'word/paths.go','type paths struct{}\n',''))

r('x25-word-write-rune',(C+'word/path.go','@func (p path) toString','''
func (p path) toString() string {

	var builder strings.Builder

	for _, character := range p {
		builder.WriteRune(character)
	}

	return builder.String()
}
'''),(C+'word/path.go','package word\n','package word\n\nimport "strings"\n'))

r('x26-class-pointer',(C+'class/repository.go','	isInitialized bool\n	entity        Entity\n','	entity  *Entity\n'),
 (C+'class/repository.go','		storage:       storage,\n		isInitialized: false,\n		entity:        Entity{},\n','		storage: storage,\n'),
 (C+'class/repository.go','if !r.isInitialized {','if r.entity == nil {'),
 (C+'class/repository.go','r.entity = newEntity(','entity := newEntity('),
 (C+'class/repository.go','			node.NewStory(storyIdentifier, r.storage),\n		)\n','			node.NewStory(storyIdentifier, r.storage),\n		)\n\n		r.entity = &entity\n'),
 (C+'class/repository.go','	return r.entity, nil','	return *r.entity, nil'))

r('x27-mutex',(C+'class/repository.go','	isInitialized bool\n','	mutex         sync.Mutex\n	isInitialized bool\n'),
 (C+'class/repository.go','	if !r.isInitialized {\n','	r.mutex.Lock()\n	defer r.mutex.Unlock()\n\n	if !r.isInitialized {\n'),
 (C+'class/repository.go','import (\n	"fmt"\n	"github.com/mem-memov/semnet/internal/abstract/class"\n	"github.com/mem-memov/semnet/internal/concrete/class/node"\n','import (\n	"fmt"\n	"github.com/mem-memov/semnet/internal/abstract/class"\n	"github.com/mem-memov/semnet/internal/concrete/class/node"\n	"sync"\n'),
 (C+'bit/layer.go','	isInitialized   bool\n','	mutex           sync.Mutex\n	isInitialized   bool\n'),
 (C+'bit/layer.go','	if !l.isInitialized {\n','	l.mutex.Lock()\n	defer l.mutex.Unlock()\n\n	if !l.isInitialized {\n'),
 (C+'bit/layer.go','	"github.com/mem-memov/semnet/internal/concrete/class"\n','	"github.com/mem-memov/semnet/internal/concrete/class"\n	"sync"\n'))

r('x28-package-separator',(C+'phrase/paths.go','strings.Split(words, " ")','strings.Split(words, separator)'),
 (C+'phrase/path.go','strings.Join(p, " ")','strings.Join(p, separator)'),(C+'phrase/path.go','type path []string\n','type path []string\n\nvar separator = string(rune(32))\n'))

r('x29-init-table',(C+'class/repository.go','type Repository struct','''var names map[uint]string

func init() {
	names = map[uint]string{
		bitIdentifier:       "bit",
		characterIdentifier: "character",
	}
}

func wrongNode(expected uint, result uint) error {

	return fmt.Errorf("wrong %s class node %d", names[expected], result)
}

type Repository struct'''),
 (C+'class/repository.go','fmt.Errorf("wrong bit class node %d", result)','wrongNode(bitIdentifier, result)'),
 (C+'class/repository.go','fmt.Errorf("wrong character class node %d", result)','wrongNode(characterIdentifier, result)'))

r('x30-switch-counts',(C+'fact/entity.go','@func (e Entity) HasTargetFact','''
func (e Entity) HasTargetFact() (bool, error) {

	targets, err := e.storage.ReadTargets(e.position)

	return err == nil && len(targets) > 0, err
}
'''),(C+'fact/entity.go','@func (e Entity) GetTargetFact','''
func (e Entity) GetTargetFact() (uint, error) {

	targets, err := e.storage.ReadTargets(e.position)

	switch {
	case err != nil:
		return 0, err
	case len(targets) == 1:
		return targets[0], nil
	}

	return 0, fmt.Errorf("fact has wrong number of target facts: %d at %d", len(targets), e.position)
}
'''),(C+'fact/entity.go','@func (e Entity) GetFirstRemark','''
func (e Entity) GetFirstRemark() (uint, error) {

	return e.single(e.remark, "first remarks")
}

func (e Entity) single(node uint, name string) (identifier uint, err error) {

	var targets []uint

	if targets, err = e.storage.ReadTargets(node); err == nil {
		if len(targets) == 1 {
			identifier = targets[0]
		} else {
			err = fmt.Errorf("fact has wrong number of %s", name)
		}
	}

	return
}
'''),(C+'fact/entity.go','@func (e Entity) GetTargetStory','''
func (e Entity) GetTargetStory() (uint, error) {

	return e.single(e.story, "stories")
}
'''))

r('x31-next-element-two-steps',(C+'phrase/element.go','@func (e Element) ProvideNextElement','''
func (e Element) ProvideNextElement(wordValue string) (abstractPhrase.Element, error) {

	next, found, err := e.findNextElement(wordValue)
	if found || err != nil {
		return next, err
	}

	return e.createNextElement(wordValue)
}

func (e Element) with(phrase abstractPhrase.Entity) Element {

	e.phrase = phrase

	return e
}

func (e Element) findNextElement(wordValue string) (abstractPhrase.Element, bool, error) {

	identifiers, err := e.phrase.GetTargetPhrases()
	if err != nil {
		return nil, false, err
	}

	for len(identifiers) > 0 {
		phrase, err := e.phraseStorage.ReadEntityByPhrase(identifiers[0])
		if err != nil {
			return nil, false, err
		}

		next := e.with(phrase)

		value, err := next.ExtractWordValue()
		if err != nil {
			return nil, false, err
		}

		if value == wordValue {
			return next, true, nil
		}

		identifiers = identifiers[1:]
	}

	return nil, false, nil
}

func (e Element) createNextElement(wordValue string) (abstractPhrase.Element, error) {

	class, err := e.classRepository.ProvideEntity()
	if err != nil {
		return nil, err
	}

	word, err := e.wordRepository.Provide(wordValue)
	if err != nil {
		return nil, err
	}

	phrase, err := e.phraseFactory.CreateTailEntity(class, word, e.phrase)
	if err != nil {
		return nil, err
	}

	return e.with(phrase), nil
}
'''))

r('x32-extract-values-walker',(C+'phrase/aggregate.go','@func (a Aggregate) Extract','''
func (a Aggregate) Extract() (string, error) {

	words, err := collectBackwards(a.phraseElements.CreateLastElement(a.phrase))
	if err != nil {
		return "", err
	}

	return words.reverse().toString(), nil
}

func collectBackwards(element abstractPhrase.Element) (words path, err error) {

	for more := true; more; {
		word, err := element.ExtractWordValue()
		if err != nil {
			return nil, err
		}

		words = append(words, word)

		if more, err = element.HasPreviousElement(); err != nil {
			return nil, err
		}

		if more {
			if element, err = element.GetPreviousElement(); err != nil {
				return nil, err
			}
		}
	}

	return words, nil
}
'''))

r('x33-aggregate-provider',(C+'character/repository.go','''	characterElement, err := r.characterElements.ProvideFirstElement(path[0])
	if err != nil {
		return nil, err
	}

	for _, bitValue := range path[1:] {

		characterElement, err = characterElement.ProvideNextElement(bitValue)
		if err != nil {
			return nil, err
		}
	}
''','''	provide := r.characterElements.ProvideFirstElement

	var characterElement abstractCharacter.Element
	for _, bitValue := range path {
		characterElement, err = provide(bitValue)
		if err != nil {
			return nil, err
		}

		provide = characterElement.ProvideNextElement
	}
'''))

r('x34-bits-by-mask',(C+'character/paths.go','@func (p *paths) collect','''
func (p *paths) collect(integer rune) (path, error) {

	if integer < 0 {
		return path{}, fmt.Errorf("invalid character: %d", integer)
	}

	bitValues := path{integer&1 == 1}
	for integer >>= 1; integer != 0; integer >>= 1 {
		bitValues = append(bitValues, integer&1 == 1)
	}

	return bitValues.reverse(), nil
}
'''))

r('x35-bits-len',(C+'character/paths.go','@func (p *paths) collect','''
func (p *paths) collect(integer rune) (path, error) {

	if integer < 0 {
		return path{}, fmt.Errorf("invalid character: %d", integer)
	}

	length := bits.Len32(uint32(integer))
	if length == 0 {
		length = 1
	}

	bitValues := make(path, length)
	for i := range bitValues {
		bitValues[i] = integer>>uint(length-1-i)&1 == 1
	}

	return bitValues, nil
}
'''),(C+'character/paths.go','import (\n	"fmt"\n','import (\n	"fmt"\n	"math/bits"\n'))

r('x36-story-create-return',(C+'story/repository.go','''	story, err := r.storyStorage.CreateEntity(classIdentifier)
	if err != nil {
		return nil, err
	}

	return story, nil''','	return r.storyStorage.CreateEntity(classIdentifier)'))

r('x37-node-base',
 (C+'class/node/remark.go','@func (r Remark) Create','''
func (r Remark) Create() (uint, error) {

	return register(r.storage, r.identifier)
}

func register(storage storage, class uint) (uint, error) {

	identifier, err := storage.Create()
	if err == nil {
		err = storage.Connect(identifier, class)
	}
	if err != nil {
		return 0, err
	}

	return identifier, nil
}
'''),(C+'class/node/fact.go','@func (f Fact) Create','''
func (f Fact) Create() (uint, error) {

	return register(f.storage, f.identifier)
}
'''),(C+'class/node/story.go','@func (s Story) Create','''
func (s Story) Create() (uint, error) {

	return register(s.storage, s.identifier)
}
'''))

r('x38-layer-class-abstract',(C+'bit/layer.go','	classRepository *class.Repository\n','	provideClass    func() (abstractClass.Entity, error)\n'),
 (C+'bit/layer.go','		classRepository: classRepository,\n','		provideClass:    classRepository.ProvideEntity,\n'),
 (C+'bit/layer.go','l.classRepository.ProvideEntity()','l.provideClass()'),
 (C+'bit/layer.go','	abstractBit "github','	abstractBit "github') if False else (C+'bit/layer.go','	"github.com/mem-memov/semnet/internal/abstract"\n','	"github.com/mem-memov/semnet/internal/abstract"\n	abstractClass "github.com/mem-memov/semnet/internal/abstract/class"\n'))

r('x39-siblings-loop-header',(C+'fact/repository.go','''	if len(siblingTrees) != 0 {

		siblingStory, err := r.storyRepository.FetchByTree(siblingTrees[0])
		if err != nil {
			return nil, err
		}

		for {
			hasTargetPosition, err := siblingStory.HasTargetPosition()
			if err != nil {
				return nil, err
			}

			if !hasTargetPosition {
				break
			}

			targetPosition, err := siblingStory.GetTargetPosition()
			if err != nil {
				return nil, err
			}

			siblingStory, err = r.storyRepository.FetchByPosition(targetPosition)
			if err != nil {
				return nil, err
			}
		}

		err = siblingStory.PointToPosition(childStory.GetPosition())
		if err != nil {
			return nil, err
		}

	}
''','''	for _, siblingTree := range siblingTrees {

		sibling, err := r.storyRepository.FetchByTree(siblingTree)
		if err != nil {
			return nil, err
		}

		has, err := sibling.HasTargetPosition()
		for err == nil && has {
			var position uint
			if position, err = sibling.GetTargetPosition(); err != nil {
				break
			}
			if sibling, err = r.storyRepository.FetchByPosition(position); err != nil {
				break
			}
			has, err = sibling.HasTargetPosition()
		}

		if err == nil {
			err = sibling.PointToPosition(childStory.GetPosition())
		}

		if err != nil {
			return nil, err
		}

		break
	}
'''))

r('x40-remark-noop-counters',(RM,'func (a Aggregate) HasNextRemark() (bool, error) {\n','func (a Aggregate) HasNextRemark() (bool, error) {\n\n	var calls int\n	calls++\n	_ = calls\n'),
 (C+'fact/repository.go','	lastFact := fact\n	for {\n','	lastFact := fact\n	hops := 0\n	for {\n		hops++\n'))
