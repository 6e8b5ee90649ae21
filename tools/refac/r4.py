C='internal/concrete/'
R=[]
def r(i,*e): R.append(dict(id=i,edits=list(e)))
# create nodes of an entity in a loop, keep them in an array
r('u01-create-loop',(C+'word/storage.go','@func (s *Storage) CreateEntity','''func (s *Storage) CreateEntity(class uint) (abstractWord.Entity, error) {

	var nodes [4]uint
	nodes[0] = class
	for i := 1; i < len(nodes); i++ {
		n, err := s.storage.Create()
		if err != nil {
			return nil, err
		}
		nodes[i] = n
	}
	for i := 1; i < len(nodes); i++ {
		if err := s.storage.SetReference(nodes[i-1], nodes[i]); err != nil {
			return nil, err
		}
	}

	return Entity{
		class:     nodes[0],
		character: nodes[1],
		word:      nodes[2],
		phrase:    nodes[3],
		storage:   s.storage,
	}, nil
}'''))
r('u02-follow',(C+'word/storage.go','@func (s *Storage) ReadEntityByClass','''func (s *Storage) ReadEntityByClass(class uint) (abstractWord.Entity, error) {

	nodes, err := s.follow(class, 3)
	if err != nil {
		return nil, err
	}

	return Entity{
		class:     class,
		character: nodes[0],
		word:      nodes[1],
		phrase:    nodes[2],
		storage:   s.storage,
	}, nil
}

func (s *Storage) follow(from uint, steps int) ([]uint, error) {
	nodes := make([]uint, 0, steps)
	current := from
	for len(nodes) < steps {
		_, next, err := s.storage.GetReference(current)
		if err != nil {
			return nil, err
		}
		nodes = append(nodes, next)
		current = next
	}
	return nodes, nil
}'''))
# class initialisation driven by a table
r('u03-class-table',(C+'class/repository.go','@func (r *Repository) ProvideEntity','''func (r *Repository) ProvideEntity() (class.Entity, error) {

	if !r.isInitialized {

		hasFirstNode, err := r.storage.Has(1)
		if err != nil {
			return Entity{}, err
		}

		if !hasFirstNode {
			if err := r.createNodes(); err != nil {
				return Entity{}, err
			}
		}

		r.entity = newEntity(
			node.NewBit(bitIdentifier, r.storage),
			node.NewCharacter(characterIdentifier, r.storage),
			node.NewWord(wordIdentifier, r.storage),
			node.NewPhrase(phraseIdentifier, r.storage),
			node.NewDetail(detailIdentifier, r.storage),
			node.NewRemark(remarkIdentifier, r.storage),
			node.NewFact(factIdentifier, r.storage),
			node.NewStory(storyIdentifier, r.storage),
		)
	}

	return r.entity, nil
}

func (r *Repository) createNodes() error {
	names := []string{"bit", "character", "word", "phrase", "detail", "position", "fact", "story"}
	for i, name := range names {
		want := uint(i) + 1
		result, err := r.storage.Create()
		if err != nil {
			return err
		}
		if result != want {
			return fmt.Errorf("wrong %s class node %d", name, result)
		}
		if want > bitIdentifier {
			if err := r.storage.SetReference(want-1, want); err != nil {
				return err
			}
		}
	}
	return nil
}'''))
r('u04-class-once',(C+'class/repository.go','''			node.NewStory(storyIdentifier, r.storage),
		)
''','''			node.NewStory(storyIdentifier, r.storage),
		)
		r.isInitialized = true
'''))
r('u05-class-early',(C+'class/repository.go','''	if !r.isInitialized {

		hasFirstNode''','''	if r.isInitialized {
		return r.entity, nil
	}

	{
		hasFirstNode'''))
r('u06-class-keyed',(C+'class/entity.go','''	return Entity{
		bitNode,
		characterNode,
		wordNode,
		phraseNode,
		detailNode,
		remarkNode,
		factNode,
		storyNode,
	}''','''	return Entity{
		storyNode:     storyNode,
		factNode:      factNode,
		remarkNode:    remarkNode,
		detailNode:    detailNode,
		phraseNode:    phraseNode,
		wordNode:      wordNode,
		characterNode: characterNode,
		bitNode:       bitNode,
	}'''))
r('u07-node-embedded',(C+'class/node/kind.go',None,'''package node

import "fmt"

// kind is what all classes have in common.
type kind struct {
	identifier uint
	storage    storage
}

func (k kind) Create() (uint, error) {

	identifier, err := k.storage.Create()
	if err != nil {
		return 0, err
	}

	return identifier, k.storage.Connect(identifier, k.identifier)
}

func (k kind) check(identifier uint, name string) (bool, error) {

	targets, err := k.storage.ReadTargets(identifier)
	if err != nil {
		return false, err
	}

	if len(targets) != 1 {
		return false, fmt.Errorf("wrong number of targets at %s class node %d", name, identifier)
	}

	return targets[0] == k.identifier, nil
}
'''),(C+'class/node/word.go',None,'''package node

type Word struct {
	kind
}

func NewWord(identifier uint, storage storage) Word {
	return Word{kind{identifier: identifier, storage: storage}}
}

func (w Word) Is(identifier uint) (bool, error) {
	return w.check(identifier, "word")
}
'''),(C+'class/node/phrase.go',None,'''package node

type Phrase struct {
	kind
}

func NewPhrase(identifier uint, storage storage) Phrase {
	return Phrase{kind{identifier: identifier, storage: storage}}
}

func (w Phrase) Is(identifier uint) (bool, error) {
	return w.check(identifier, "phrase")
}
'''))
# rendering: collect first, render after
r('u08-output-pairs',('output.go','@func (o *Output) GetStory','''func (o *Output) GetStory(remark Remark) (string, error) {

	factRemark, err := remark.GetFirstFact()
	if err != nil {
		return "", err
	}

	var pairs [][2]string
	for {
		object, property, err := factRemark.GetObjectAndProperty()
		if err != nil {
			return "", err
		}
		pairs = append(pairs, [2]string{object, property})

		hasNextRemark, err := factRemark.HasNextRemark()
		if err != nil {
			return "", err
		}
		if !hasNextRemark {
			break
		}

		factRemark, err = factRemark.GetNextRemark()
		if err != nil {
			return "", err
		}
	}

	var buffer bytes.Buffer
	for _, pair := range pairs {
		buffer.WriteString(pair[0])
		buffer.WriteString(" ")
		buffer.WriteString(pair[1])
		buffer.WriteString(" ")
	}

	return buffer.String(), nil
}'''))
r('u09-output-join',('output.go','@func (o *Output) GetStory','''func (o *Output) GetStory(remark Remark) (string, error) {

	factRemark, err := remark.GetFirstFact()
	if err != nil {
		return "", err
	}

	texts := []string{}
	for more := true; more; {
		object, property, err := factRemark.GetObjectAndProperty()
		if err != nil {
			return "", err
		}
		texts = append(texts, object, property)

		more, err = factRemark.HasNextRemark()
		if err != nil {
			return "", err
		}
		if more {
			factRemark, err = factRemark.GetNextRemark()
			if err != nil {
				return "", err
			}
		}
	}

	return strings.Join(texts, " ") + " ", nil
}'''),('output.go','import "bytes"','import "strings"'))
r('u10-output-write',('output.go','@func (o *Output) GetStory','''func (o *Output) GetStory(remark Remark) (string, error) {

	factRemark, err := remark.GetFirstFact()
	if err != nil {
		return "", err
	}

	var buffer bytes.Buffer
	put := func(texts ...string) {
		for _, text := range texts {
			buffer.WriteString(text)
			buffer.WriteByte(' ')
		}
	}

	for {
		object, property, err := factRemark.GetObjectAndProperty()
		if err != nil {
			return "", err
		}
		put(object, property)

		hasNextRemark, err := factRemark.HasNextRemark()
		if err != nil {
			return "", err
		}
		if !hasNextRemark {
			return buffer.String(), nil
		}

		if factRemark, err = factRemark.GetNextRemark(); err != nil {
			return "", err
		}
	}
}'''))
# numbers and bits
r('u11-bits-shift',(C+'character/paths.go','@func (p *paths) collect','''func (p *paths) collect(integer rune) (path, error) {
	bits := strconv.FormatInt(int64(integer), 2)
	bitValues := make(path, 0, len(bits))
	for _, name := range bits {
		switch name {
		case '0':
			bitValues = append(bitValues, false)
		case '1':
			bitValues = append(bitValues, true)
		default:
			return path{}, fmt.Errorf("invalid bit name: %c", name)
		}
	}

	return bitValues, nil
}'''),(C+'character/paths.go','import (\n\t"fmt"\n','import (\n\t"fmt"\n\t"strconv"\n'))
r('u12-value-or',(C+'character/aggragate.go','''		integer <<= 1
		if bitValue {
			integer += 1
		}''','''		bit := int32(0)
		if bitValue {
			bit = 1
		}
		integer = integer*2 + bit'''))
r('u13-value-index',(C+'character/aggragate.go','''	for _, bitValue := range path.reverse() {
		integer <<= 1
		if bitValue {
			integer += 1
		}
	}
''','''	for i := len(path) - 1; i >= 0; i-- {
		integer <<= 1
		if path[i] {
			integer |= 1
		}
	}
'''))
r('u14-runes',(C+'word/paths.go','@func (p *paths) collect','''func (p *paths) collect(word string) (path, error) {
	characters := make([]rune, 0, len(word))
	for _, character := range word {
		characters = append(characters, character)
	}
	if len(characters) == 0 {
		return nil, fmt.Errorf("no character in word cluster: %s", word)
	}
	return characters, nil
}'''))
r('u15-split-n',(C+'phrase/paths.go','strings.Split(words, " ")','strings.SplitN(words, " ", -1)'))
r('u16-split-sep',(C+'phrase/paths.go','type paths struct{}','const separator = " "\n\ntype paths struct{}'),(C+'phrase/paths.go','strings.Split(words, " ")','strings.Split(words, separator)'))
# shared checks in a package of their own
r('u17-shared-one',(C+'links/links.go',None,'''package links

import "fmt"

// One gives the only one of the identifiers found.
func One(found []uint, what string, at uint) (uint, error) {
	if len(found) == 1 {
		return found[0], nil
	}
	return 0, fmt.Errorf("%s: %d at %d", what, len(found), at)
}

// Any tells whether there is one; more are an error.
func Any(found []uint, what string, at uint) (bool, error) {
	switch {
	case len(found) > 1:
		return false, fmt.Errorf("%s: %d at %d", what, len(found), at)
	default:
		return len(found) == 1, nil
	}
}
'''),(C+'fact/entity.go','@func (e Entity) HasTargetFact','''func (e Entity) HasTargetFact() (bool, error) {

	targets, err := e.storage.ReadTargets(e.position)
	if err != nil {
		return false, err
	}

	return links.Any(targets, "fact has wrong number of target facts", e.position)
}'''),(C+'fact/entity.go','	abstractFact "github','	"github.com/mem-memov/semnet/internal/concrete/links"\n	abstractFact "github'),
(C+'word/entity.go','@func (e Entity) GetSourceCharacter','''func (e Entity) GetSourceCharacter() (uint, error) {

	sources, err := e.storage.ReadSources(e.character)
	if err != nil {
		return 0, err
	}

	return links.One(sources, "word has wrong number of source characters", e.character)
}'''),(C+'word/entity.go','	abstractWord "github','	"github.com/mem-memov/semnet/internal/concrete/links"\n	abstractWord "github'))
# element search in one pass
r('u18-one-pass',(C+'word/element.go','''	targetWords := make([]abstractWord.Entity, 0, len(targetWordIdentifiers))
	for _, targetWordIdentifier := range targetWordIdentifiers {

		targetWord, err := e.wordStorage.ReadEntityByWord(targetWordIdentifier)
		if err != nil {
			return nil, err
		}

		targetWords = append(targetWords, targetWord)
	}

	// use existing
	for _, targetWord := range targetWords {
''','''	// use existing
	for _, targetWordIdentifier := range targetWordIdentifiers {

		targetWord, err := e.wordStorage.ReadEntityByWord(targetWordIdentifier)
		if err != nil {
			return nil, err
		}

'''))
r('u19-has-value',(C+'word/element.go','''		targetCharacterIdentifier, err := targetWord.GetTargetCharacter()
		if err != nil {
			return nil, err
		}

		targetCharacter, err := e.characterRepository.Fetch(targetCharacterIdentifier)
		if err != nil {
			return nil, err
		}

		targetValue, err := targetCharacter.Extract()
		if err != nil {
			return nil, err
		}

		if characterValue == targetValue {
			return Element{
				word:                targetWord,
				wordStorage:         e.wordStorage,
				wordFactory:         e.wordFactory,
				classRepository:     e.classRepository,
				characterRepository: e.characterRepository,
			}, nil
		}
	}
''','''		next := e.with(targetWord)

		targetValue, err := next.ExtractCharacterValue()
		if err != nil {
			return nil, err
		}

		if targetValue != characterValue {
			continue
		}

		return next, nil
	}
'''),(C+'word/element.go','func (e Element) HasPreviousElement','''func (e Element) with(word abstractWord.Entity) Element {
	e.word = word
	return e
}

func (e Element) HasPreviousElement'''))
r('u20-word-fold',(C+'word/repository.go','''	for _, characterValue := range path[1:] {''','''	for rest := path[1:]; len(rest) > 0; rest = rest[1:] {
		characterValue := rest[0]
'''))
r('u21-iface-arg',(C+'word/storage.go','''func (s *Storage) ReadEntityByCharacter(character uint) (abstractWord.Entity, error) {

	class, word, err := s.storage.GetReference(character)''','''type referrer interface {
	GetReference(source uint) (uint, uint, error)
}

func around(r referrer, n uint) (uint, uint, error) {
	before, after, err := r.GetReference(n)
	return before, after, err
}

func (s *Storage) ReadEntityByCharacter(character uint) (abstractWord.Entity, error) {

	class, word, err := around(s.storage, character)'''))
r('u22-errors-new',(C+'word/entity.go','''		return 0, fmt.Errorf("word has wrong number of source characters: %d at %d", len(sourceCharacters), e.character)''','''		return 0, countError{"source characters", len(sourceCharacters), e.character}'''),(C+'word/entity.go','type Entity struct','''type countError struct {
	what  string
	count int
	at    uint
}

func (e countError) Error() string {
	return fmt.Sprintf("word has wrong number of %s: %d at %d", e.what, e.count, e.at)
}

type Entity struct'''))
r('u23-pointer-entity',(C+'word/storage.go','return Entity{\n\t\tclass:','return &Entity{\n\t\tclass:','all'))
r('u24-graph-vars',('output.go','''	var buffer bytes.Buffer
''','''	buffer := new(bytes.Buffer)
'''))
r('u25-output-byte',('output.go','''		buffer.WriteString(object)
		buffer.WriteString(" ")
		buffer.WriteString(property)
		buffer.WriteString(" ")
''','''		line := make([]byte, 0, len(object)+len(property)+2)
		line = append(line, object...)
		line = append(line, ' ')
		line = append(line, property...)
		line = append(line, ' ')
		buffer.Write(line)
'''))
