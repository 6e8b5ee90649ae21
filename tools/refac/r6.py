R=[]
C='internal/concrete/'
def r(id,*edits): R.append(dict(id=id,edits=list(edits)))

r('w01-bit-array',
 (C+'bit/layer.go','	zeroEntity      Entity\n	oneEntity       Entity\n','	entities        [2]Entity\n'),
 (C+'bit/layer.go','l.zeroEntity = ','l.entities[0] = ','all'),(C+'bit/layer.go','l.oneEntity = ','l.entities[1] = ','all'),
 (C+'bit/layer.go','return l.zeroEntity, l.oneEntity, nil','return l.entities[0], l.entities[1], nil'))

r('w02-bit-slice',
 (C+'bit/layer.go','	zeroEntity      Entity\n	oneEntity       Entity\n','	entities        []Entity\n'),
 (C+'bit/layer.go','l.zeroEntity = ','zeroEntity := ','all'),(C+'bit/layer.go','l.oneEntity = Entity{\n				value:     true,\n				class:     oneClassIdentifier,\n				character: oneCharacterIdentifier,\n				storage:   l.storage,\n			}','l.entities = []Entity{zeroEntity, {\n				value:     true,\n				class:     oneClassIdentifier,\n				character: oneCharacterIdentifier,\n				storage:   l.storage,\n			}}','all'),
 (C+'bit/layer.go','return l.zeroEntity, l.oneEntity, nil','return l.entities[0], l.entities[1], nil'))

r('w03-bit-map',
 (C+'bit/layer.go','	zeroEntity      Entity\n	oneEntity       Entity\n','	entities        map[bool]Entity\n'),
 (C+'bit/layer.go','		isInitialized:   false,','		isInitialized:   false,\n		entities:        map[bool]Entity{},'),
 (C+'bit/layer.go','l.zeroEntity = ','l.entities[false] = ','all'),(C+'bit/layer.go','l.oneEntity = ','l.entities[true] = ','all'),
 (C+'bit/layer.go','return l.zeroEntity, l.oneEntity, nil','return l.entities[false], l.entities[true], nil'))

# a visitor over the following elements
r('w04-visit',(C+'word/element.go','@func (e Element) ProvideNextElement','''
func (e Element) ProvideNextElement(characterValue rune) (abstractWord.Element, error) {

	var found abstractWord.Element

	err := e.eachTarget(func(target Element) (bool, error) {
		value, err := target.ExtractCharacterValue()
		if err != nil {
			return false, err
		}

		if value == characterValue {
			found = target
			return true, nil
		}

		return false, nil
	})
	if err != nil {
		return nil, err
	}

	if found != nil {
		return found, nil
	}

	class, err := e.classRepository.ProvideEntity()
	if err != nil {
		return nil, err
	}

	character, err := e.characterRepository.Provide(characterValue)
	if err != nil {
		return nil, err
	}

	newWord, err := e.wordFactory.CreateTailEntity(class, character, e.word)
	if err != nil {
		return nil, err
	}

	return e.with(newWord), nil
}

func (e Element) eachTarget(visit func(target Element) (bool, error)) error {

	identifiers, err := e.word.GetTargetWords()
	if err != nil {
		return err
	}

	for _, identifier := range identifiers {
		word, err := e.wordStorage.ReadEntityByWord(identifier)
		if err != nil {
			return err
		}

		stop, err := visit(e.with(word))
		if err != nil || stop {
			return err
		}
	}

	return nil
}

func (e Element) with(word abstractWord.Entity) Element {
	e.word = word
	return e
}
'''))

# found or not in one call
r('w05-find-target',
 (C+'word/entity.go','@func (e Entity) HasTargetPhrase','''
func (e Entity) findTargetPhrase() (uint, bool, error) {

	targets, err := e.storage.ReadTargets(e.phrase)
	if err != nil {
		return 0, false, err
	}

	if len(targets) > 1 {
		return 0, false, fmt.Errorf("word has wrong number of target phrases: %d at %d", len(targets), e.phrase)
	}

	if len(targets) == 0 {
		return 0, false, nil
	}

	return targets[0], true, nil
}

func (e Entity) HasTargetPhrase() (bool, error) {

	_, found, err := e.findTargetPhrase()

	return found, err
}
'''),(C+'word/entity.go','@func (e Entity) GetTargetPhrase','''
func (e Entity) GetTargetPhrase() (uint, error) {

	target, found, err := e.findTargetPhrase()
	if err != nil {
		return 0, err
	}

	if !found {
		return 0, fmt.Errorf("word has no target phrase at %d", e.phrase)
	}

	return target, nil
}
'''))

r('w06-identifiers',
 (C+'story/entity.go','type Entity struct','''type identifiers []uint

func (i identifiers) only(what string) (uint, error) {
	if len(i) == 1 {
		return i[0], nil
	}

	return 0, fmt.Errorf("story has wrong number of %s: %d", what, len(i))
}

func (i identifiers) any() bool {
	return len(i) > 0
}

type Entity struct'''),
 (C+'story/entity.go','@func (e Entity) GetTargetPosition','''
func (e Entity) GetTargetPosition() (uint, error) {

	targets, err := e.storage.ReadTargets(e.position)
	if err != nil {
		return 0, err
	}

	return identifiers(targets).only("next stories")
}
'''),(C+'story/entity.go','@func (e Entity) HasTargetPosition','''
func (e Entity) HasTargetPosition() (bool, error) {

	targets, err := e.storage.ReadTargets(e.position)

	return err == nil && identifiers(targets).any(), err
}
'''),(C+'story/entity.go','@func (e Entity) GetTargetTree','''
func (e Entity) GetTargetTree() (uint, error) {

	targets, err := e.storage.ReadTargets(e.tree)
	if err != nil {
		return 0, err
	}

	return identifiers(targets).only("trees")
}
'''),(C+'story/entity.go','@func (e Entity) GetTargetFact','''
func (e Entity) GetTargetFact() (uint, error) {

	targets, err := e.storage.ReadTargets(e.fact)
	if err != nil {
		return 0, err
	}

	return identifiers(targets).only("facts")
}
'''))

# a shared package for links
r('w07-link-package',
 (C+'link/link.go',None,'''package link

import "fmt"

type Reader interface {
	ReadSources(target uint) ([]uint, error)
	ReadTargets(source uint) ([]uint, error)
}

func Target(storage Reader, node uint, what string) (uint, error) {
	targets, err := storage.ReadTargets(node)
	return single(targets, err, what)
}

func Source(storage Reader, node uint, what string) (uint, error) {
	sources, err := storage.ReadSources(node)
	return single(sources, err, what)
}

func HasTarget(storage Reader, node uint) (bool, error) {
	targets, err := storage.ReadTargets(node)
	if err != nil {
		return false, err
	}
	return len(targets) != 0, nil
}

func single(nodes []uint, err error, what string) (uint, error) {
	switch {
	case err != nil:
		return 0, err
	case len(nodes) != 1:
		return 0, fmt.Errorf("wrong number of %s", what)
	}
	return nodes[0], nil
}
'''),
 (C+'fact/entity.go','@func (e Entity) HasTargetFact','''
func (e Entity) HasTargetFact() (bool, error) {

	return link.HasTarget(e.storage, e.position)
}
'''),(C+'fact/entity.go','@func (e Entity) GetTargetFact','''
func (e Entity) GetTargetFact() (uint, error) {

	return link.Target(e.storage, e.position, "target facts")
}
'''),(C+'fact/entity.go','@func (e Entity) GetFirstRemark','''
func (e Entity) GetFirstRemark() (uint, error) {

	return link.Target(e.storage, e.remark, "first remarks")
}
'''),(C+'fact/entity.go','@func (e Entity) GetTargetStory','''
func (e Entity) GetTargetStory() (uint, error) {

	return link.Target(e.storage, e.story, "stories")
}
'''),(C+'fact/entity.go','	"fmt"\n',''),(C+'fact/entity.go','	abstractFact "','	"github.com/mem-memov/semnet/internal/concrete/link"\n	abstractFact "'),
 (C+'remark/entity.go','@func (e Entity) GetSourceDetail','''
func (e Entity) GetSourceDetail() (uint, error) {

	return link.Source(e.storage, e.detail, "source details")
}
'''),(C+'remark/entity.go','	abstractFact "','	"github.com/mem-memov/semnet/internal/concrete/link"\n	abstractFact "'))

# one walk for facts and stories
r('w08-chain-interface',
 (C+'fact/chain.go',None,'''package fact

import (
	abstractFact "github.com/mem-memov/semnet/internal/abstract/fact"
	abstractStory "github.com/mem-memov/semnet/internal/abstract/story"
)

// chained is a place in a row.
type chained interface {
	more() (bool, error)
	next() (chained, error)
}

type factPlace struct {
	fact    abstractFact.Entity
	storage abstractFact.Storage
}

func (p factPlace) more() (bool, error) {
	return p.fact.HasTargetFact()
}

func (p factPlace) next() (chained, error) {
	position, err := p.fact.GetTargetFact()
	if err != nil {
		return nil, err
	}

	fact, err := p.storage.ReadEntityByPosition(position)
	if err != nil {
		return nil, err
	}

	return factPlace{fact, p.storage}, nil
}

type storyPlace struct {
	story      abstractStory.Entity
	repository abstractStory.Repository
}

func (p storyPlace) more() (bool, error) {
	return p.story.HasTargetPosition()
}

func (p storyPlace) next() (chained, error) {
	position, err := p.story.GetTargetPosition()
	if err != nil {
		return nil, err
	}

	story, err := p.repository.FetchByPosition(position)
	if err != nil {
		return nil, err
	}

	return storyPlace{story, p.repository}, nil
}

func last(place chained) (chained, error) {
	for {
		more, err := place.more()
		if err != nil {
			return nil, err
		}

		if !more {
			return place, nil
		}

		place, err = place.next()
		if err != nil {
			return nil, err
		}
	}
}
'''),
 (C+'fact/repository.go','''	lastFact := fact
	for {
		hasTargetFact, err := lastFact.HasTargetFact()
		if err != nil {
			return nil, err
		}

		if !hasTargetFact {
			break
		}

		targetFact, err := lastFact.GetTargetFact()
		if err != nil {
			return nil, err
		}

		lastFact, err = r.factStorage.ReadEntityByPosition(targetFact)
		if err != nil {
			return nil, err
		}
	}

	err = lastFact.PointToPosition(nextFact.GetPosition())''','''	end, err := last(factPlace{fact, r.factStorage})
	if err != nil {
		return nil, err
	}

	err = end.(factPlace).fact.PointToPosition(nextFact.GetPosition())'''),
 (C+'fact/repository.go','''		for {
			hasTargetPosition, err := siblingStory.HasTargetPosition()
			if err != nil {
				return nil, err
			}

			if !hasTargetPosition {
				break
			}

			targetPosition, err := siblingStory.GetTargetPosition()
			if err != nil {
				return nil, err
			}

			siblingStory, err = r.storyRepository.FetchByPosition(targetPosition)
			if err != nil {
				return nil, err
			}
		}

		err = siblingStory.PointToPosition(childStory.GetPosition())''','''		end, err := last(storyPlace{siblingStory, r.storyRepository})
		if err != nil {
			return nil, err
		}

		err = end.(storyPlace).story.PointToPosition(childStory.GetPosition())'''))

# method expressions
r('w09-method-expressions',
 (C+'remark/aggregate.go','@func (a Aggregate) GetNextFact','''
func (a Aggregate) GetNextFact() (abstractRemark.Aggregate, error) {

	return a.follow(abstractFact.Aggregate.ToNextFact)
}

// follow moves to the remark that starts another fact.
func (a Aggregate) follow(move func(abstractFact.Aggregate) (abstractFact.Aggregate, error)) (abstractRemark.Aggregate, error) {

	factIdentifier, err := a.remark.GetTargetFact()
	if err != nil {
		return nil, err
	}

	fact, err := a.factRepository.FetchByRemark(factIdentifier)
	if err != nil {
		return nil, err
	}

	fact, err = move(fact)
	if err != nil {
		return nil, err
	}

	remarkFact, err := fact.GetFirstRemark()
	if err != nil {
		return nil, err
	}

	remark, err := a.remarkStorage.ReadEntityByFact(remarkFact)
	if err != nil {
		return nil, err
	}

	a.remark = remark

	return a, nil
}
'''),(C+'remark/aggregate.go','@func (a Aggregate) GetFirstFact','''
func (a Aggregate) GetFirstFact() (abstractRemark.Aggregate, error) {

	return a.follow(abstractFact.Aggregate.ToFirstFact)
}
'''),(C+'remark/aggregate.go','@func (a Aggregate) GetNextStory','''
func (a Aggregate) GetNextStory() (abstractRemark.Aggregate, error) {

	return a.follow(abstractFact.Aggregate.ToNextStory)
}
'''))

r('w10-detail-single-var',
 (C+'detail/factory.go','''	commonDetailIdentifiers := make([]uint, 0, 1)

	// TODO: optimize (cut tails, use map, sort)
	for _, objectTargetDetail := range objectTargetDetails {
		for _, propertySourceDetail := range propertySourceDetails {
			if propertySourceDetail == objectTargetDetail {
				commonDetailIdentifiers = append(commonDetailIdentifiers, propertySourceDetail)
			}
		}
	}

	switch len(commonDetailIdentifiers) {
	case 0:
		return f.storage.CreateEntity(classEntity, objectPhrase, propertyPhrase)
	case 1:
		return f.storage.ReadEntityByPhrase(commonDetailIdentifiers[0])
	default:
		return Entity{}, fmt.Errorf("phrases have too many common details")
	}''','''	count := 0
	var common uint
	for _, objectTargetDetail := range objectTargetDetails {
		for _, propertySourceDetail := range propertySourceDetails {
			if propertySourceDetail == objectTargetDetail {
				count++
				common = objectTargetDetail
			}
		}
	}

	if count > 1 {
		return Entity{}, fmt.Errorf("phrases have too many common details")
	}

	if count == 0 {
		return f.storage.CreateEntity(classEntity, objectPhrase, propertyPhrase)
	}

	return f.storage.ReadEntityByPhrase(common)'''))

r('w11-manual-split',
 (C+'phrase/paths.go','@func (p *paths) collect','''
func (p *paths) collect(words string) (path, error) {

	result := path{}
	start := 0
	for i := 0; i < len(words); i++ {
		if words[i] == ' ' {
			result = append(result, words[start:i])
			start = i + 1
		}
	}

	return append(result, words[start:]), nil
}
'''),(C+'phrase/paths.go','import (\n	"fmt"\n	"strings"\n)\n',''))

r('w12-output-slice',
 ('output.go','@func (o *Output) GetStory','''
func (o *Output) GetStory(remark Remark) (string, error) {

	current, err := remark.GetFirstFact()
	if err != nil {
		return "", err
	}

	var parts []string

	for more := true; more; {
		object, property, err := current.GetObjectAndProperty()
		if err != nil {
			return "", err
		}

		parts = append(parts, object, property)

		more, err = current.HasNextRemark()
		if err != nil {
			return "", err
		}

		if more {
			if current, err = current.GetNextRemark(); err != nil {
				return "", err
			}
		}
	}

	return strings.Join(parts, " ") + " ", nil
}
'''),('output.go','import "bytes"','import "strings"'))

r('w13-word-prepend',
 (C+'word/aggregate.go','@func (a Aggregate) Extract','''
func (a Aggregate) Extract() (string, error) {

	element := a.wordElements.CreateLastElement(a.word)
	text := ""

	for {
		value, err := element.ExtractCharacterValue()
		if err != nil {
			return "", err
		}

		text = string(value) + text

		has, err := element.HasPreviousElement()
		if err != nil {
			return "", err
		}

		if !has {
			return text, nil
		}

		element, err = element.GetPreviousElement()
		if err != nil {
			return "", err
		}
	}
}
'''))

r('w14-character-weight',
 (C+'character/aggragate.go','@func (a Aggregate) Extract','''
func (a Aggregate) Extract() (rune, error) {

	element := a.characterElements.CreateLastElement(a.character)

	var integer rune

	for weight := rune(1); ; weight <<= 1 {
		bit, err := element.ExtractBitValue()
		if err != nil {
			return 0, err
		}

		if bit {
			integer += weight
		}

		has, err := element.HasPreviousElement()
		if err != nil {
			return 0, err
		}

		if !has {
			return integer, nil
		}

		element, err = element.GetPreviousElement()
		if err != nil {
			return 0, err
		}
	}
}
'''))

r('w15-class-nodes-array',
 (C+'class/repository.go','@func (r *Repository) ProvideEntity','''
func (r *Repository) ProvideEntity() (class.Entity, error) {

	if r.isInitialized {
		return r.entity, nil
	}

	hasFirstNode, err := r.storage.Has(bitIdentifier)
	if err != nil {
		return Entity{}, err
	}

	if !hasFirstNode {
		err = r.create()
		if err != nil {
			return Entity{}, err
		}
	}

	r.entity = newEntity(
		node.NewBit(bitIdentifier, r.storage),
		node.NewCharacter(characterIdentifier, r.storage),
		node.NewWord(wordIdentifier, r.storage),
		node.NewPhrase(phraseIdentifier, r.storage),
		node.NewDetail(detailIdentifier, r.storage),
		node.NewRemark(remarkIdentifier, r.storage),
		node.NewFact(factIdentifier, r.storage),
		node.NewStory(storyIdentifier, r.storage),
	)

	return r.entity, nil
}

func (r *Repository) create() error {

	names := [...]string{"bit", "character", "word", "phrase", "detail", "position", "fact", "story"}

	for i, name := range names {
		expected := bitIdentifier + uint(i)

		identifier, err := r.storage.Create()
		if err != nil {
			return err
		}

		if identifier != expected {
			return fmt.Errorf("wrong %s class node %d", name, identifier)
		}

		if i == 0 {
			continue
		}

		err = r.storage.SetReference(expected-1, expected)
		if err != nil {
			return err
		}
	}

	return nil
}
'''))

r('w16-pointer-receivers',
 (C+'story/entity.go','func (e Entity)','func (e *Entity)','all'),(C+'story/entity.go','= Entity{}','= &Entity{}'),
 (C+'story/storage.go','return Entity{}, err','return nil, err','all'),(C+'story/storage.go','return Entity{\n','return &Entity{\n','all'))

r('w17-add-remark-early',
 (C+'remark/aggregate.go','@func (a Aggregate) AddRemarkToFact','''
func (a Aggregate) AddRemarkToFact(property string) (abstractRemark.Aggregate, error) {

	object, _, err := a.GetObjectAndProperty()
	if err != nil {
		return nil, err
	}

	factIdentifier, err := a.remark.GetTargetFact()
	if err != nil {
		return nil, err
	}

	fact, err := a.factRepository.FetchByRemark(factIdentifier)
	if err != nil {
		return nil, err
	}

	remark, err := a.newRemark(object, property)
	if err != nil {
		return nil, err
	}

	err = remark.PointToFact(fact.GetRemark())
	if err != nil {
		return nil, err
	}

	a.remark = remark

	return a, nil
}

func (a Aggregate) newRemark(object string, property string) (abstractRemark.Entity, error) {

	class, err := a.classRepository.ProvideEntity()
	if err != nil {
		return nil, err
	}

	classIdentifier, err := class.CreateRemark()
	if err != nil {
		return nil, err
	}

	remark, err := a.remarkStorage.CreateEntity(classIdentifier)
	if err != nil {
		return nil, err
	}

	detail, err := a.detailRepository.Provide(object, property)
	if err != nil {
		return nil, err
	}

	return remark, detail.PointToRemark(remark.GetDetail())
}
'''))

r('w18-provide-no-head',
 (C+'word/repository.go','@func (r *Repository) Provide','''
func (r *Repository) Provide(word string) (abstractWord.Aggregate, error) {

	if word == "" {
		return nil, fmt.Errorf("no character in word cluster: %s", word)
	}

	var element abstractWord.Element
	var err error

	for _, character := range word {
		if element == nil {
			element, err = r.wordElements.ProvideFirstElement(character)
		} else {
			element, err = element.ProvideNextElement(character)
		}
		if err != nil {
			return nil, err
		}
	}

	return Aggregate{
		word:         element.GetEntity(),
		wordElements: r.wordElements,
		paths:        r.paths,
	}, nil
}
'''),(C+'word/repository.go','import (','import (\n	"fmt"'))

r('w19-interface-struct-alias',
 (C+'word/element.go','type Element struct {\n	word                abstractWord.Entity\n	wordStorage         abstractWord.Storage\n	wordFactory         abstractWord.Factory\n	classRepository     abstractClass.Repository\n	characterRepository abstractCharacter.Repository\n}','type dependencies struct {\n	wordStorage         abstractWord.Storage\n	wordFactory         abstractWord.Factory\n	classRepository     abstractClass.Repository\n	characterRepository abstractCharacter.Repository\n}\n\ntype Element struct {\n	dependencies\n	word abstractWord.Entity\n}'),
 (C+'word/element.go','''return Element{
				word:                targetWord,
				wordStorage:         e.wordStorage,
				wordFactory:         e.wordFactory,
				classRepository:     e.classRepository,
				characterRepository: e.characterRepository,
			}, nil''','return Element{e.dependencies, targetWord}, nil'),
 (C+'word/element.go','''return Element{
		word:                newWord,
		wordStorage:         e.wordStorage,
		wordFactory:         e.wordFactory,
		classRepository:     e.classRepository,
		characterRepository: e.characterRepository,
	}, nil''','return Element{dependencies: e.dependencies, word: newWord}, nil'),
 (C+'word/element.go','''return Element{
		word:                word,
		wordStorage:         e.wordStorage,
		wordFactory:         e.wordFactory,
		classRepository:     e.classRepository,
		characterRepository: e.characterRepository,
	}, nil''','return Element{dependencies: e.dependencies, word: word}, nil'),
 (C+'word/elements.go','''return Element{
		word:                word,
		wordStorage:         e.wordStorage,
		wordFactory:         e.wordFactory,
		classRepository:     e.classRepository,
		characterRepository: e.characterRepository,
	}''','return Element{word: word, dependencies: dependencies(*e)}','all'))

r('w20-bits-const-loop',
 (C+'bit/layer.go','@func (l *layer) initialize','''
func (l *layer) initialize() (Entity, Entity, error) {

	if l.isInitialized {
		return l.zeroEntity, l.oneEntity, nil
	}

	class, err := l.classRepository.ProvideEntity()
	if err != nil {
		return Entity{}, Entity{}, err
	}

	identifiers, err := class.GetAllBits()
	if err != nil {
		return Entity{}, Entity{}, err
	}

	isNew := len(identifiers) == 0
	if isNew {
		for i := 0; i < 2; i++ {
			identifier, err := class.CreateBit()
			if err != nil {
				return Entity{}, Entity{}, err
			}
			identifiers = append(identifiers, identifier)
		}
	}

	if len(identifiers) != 2 {
		return Entity{}, Entity{}, fmt.Errorf("wrong number of bit nodes in class %d", len(identifiers))
	}

	zeroIdentifier, oneIdentifier := identifiers[0], identifiers[1]
	if zeroIdentifier > oneIdentifier {
		zeroIdentifier, oneIdentifier = oneIdentifier, zeroIdentifier
	}

	zero, err := l.load(false, zeroIdentifier, isNew)
	if err != nil {
		return Entity{}, Entity{}, err
	}

	one, err := l.load(true, oneIdentifier, isNew)
	if err != nil {
		return Entity{}, Entity{}, err
	}

	l.zeroEntity, l.oneEntity, l.isInitialized = zero, one, true

	return zero, one, nil
}

func (l *layer) load(value bool, class uint, isNew bool) (Entity, error) {

	var character uint
	var err error

	if isNew {
		character, err = l.storage.Create()
		if err == nil {
			err = l.storage.SetReference(class, character)
		}
	} else {
		_, character, err = l.storage.GetReference(class)
	}
	if err != nil {
		return Entity{}, err
	}

	return newEntity(value, class, character, l.storage), nil
}
'''))

r('w21-detail-helper-count',
 (C+'detail/factory.go','''	commonDetailIdentifiers := make([]uint, 0, 1)

	// TODO: optimize (cut tails, use map, sort)
	for _, objectTargetDetail := range objectTargetDetails {
		for _, propertySourceDetail := range propertySourceDetails {
			if propertySourceDetail == objectTargetDetail {
				commonDetailIdentifiers = append(commonDetailIdentifiers, propertySourceDetail)
			}
		}
	}
''','''	common := map[uint]int{}
	for _, identifier := range objectTargetDetails {
		common[identifier]++
	}

	commonDetailIdentifiers := make([]uint, 0, 1)
	for _, identifier := range propertySourceDetails {
		if common[identifier] > 0 {
			commonDetailIdentifiers = append(commonDetailIdentifiers, identifier)
		}
	}
'''))

r('w22-fact-parent-helpers',
 (C+'fact/aggregate.go','@func (a Aggregate) ToFirstFact','''
func (a Aggregate) ToFirstFact() (abstractFact.Aggregate, error) {

	return a.viaStory(func(story abstractStory.Entity) (abstractStory.Entity, error) { return story, nil })
}

func (a Aggregate) viaStory(choose func(story abstractStory.Entity) (abstractStory.Entity, error)) (abstractFact.Aggregate, error) {

	storyIdentifier, err := a.fact.GetTargetStory()
	if err != nil {
		return nil, err
	}

	story, err := a.storyRepository.FetchByFact(storyIdentifier)
	if err != nil {
		return nil, err
	}

	story, err = choose(story)
	if err != nil {
		return nil, err
	}

	factIdentifier, err := story.GetTargetFact()
	if err != nil {
		return nil, err
	}

	fact, err := a.factStorage.ReadEntityByStory(factIdentifier)
	if err != nil {
		return nil, err
	}

	a.fact = fact

	return a, nil
}
'''),(C+'fact/aggregate.go','@func (a Aggregate) ToNextStory','''
func (a Aggregate) ToNextStory() (abstractFact.Aggregate, error) {

	return a.viaStory(func(story abstractStory.Entity) (abstractStory.Entity, error) {
		position, err := story.GetTargetPosition()
		if err != nil {
			return nil, err
		}

		return a.storyRepository.FetchByPosition(position)
	})
}
'''),(C+'fact/aggregate.go','@func (a Aggregate) ToParentStory','''
func (a Aggregate) ToParentStory() (abstractFact.Aggregate, error) {

	return a.viaStory(func(story abstractStory.Entity) (abstractStory.Entity, error) {
		tree, err := story.GetTargetTree()
		if err != nil {
			return nil, err
		}

		return a.storyRepository.FetchByTree(tree)
	})
}
'''))

r('w23-graph-getters',
 ('graph.go','@func (g *Graph) CreateStory','''
func (g *Graph) CreateStory(object string, property string) (Remark, error) {

	return wrap(g.remarkRepository.CreateFirstUserRemark(object, property))
}

func wrap(aggregate abstractRemark.Aggregate, err error) (Remark, error) {
	if err != nil {
		return Remark{}, err
	}

	return Remark{Aggregate: aggregate}, nil
}
'''),('graph.go','@func (g *Graph) GetRemark','''
func (g *Graph) GetRemark(remarkIdentifier uint) (Remark, error) {

	return wrap(g.remarkRepository.GetRemark(remarkIdentifier))
}
'''),('graph.go','	"github.com/mem-memov/semnet/internal/abstract"\n','	"github.com/mem-memov/semnet/internal/abstract"\n	abstractRemark "github.com/mem-memov/semnet/internal/abstract/remark"\n'))

r('w24-element-fetch-loop',
 (C+'phrase/element.go','@func (e Element) ProvideNextElement','''
func (e Element) ProvideNextElement(wordValue string) (abstractPhrase.Element, error) {

	targets, err := e.phrase.GetTargetPhrases()
	if err != nil {
		return nil, err
	}

	for i := len(targets); i > 0; i-- {
		phrase, err := e.phraseStorage.ReadEntityByPhrase(targets[i-1])
		if err != nil {
			return nil, err
		}

		candidate := Element{phrase, e.phraseStorage, e.phraseFactory, e.classRepository, e.wordRepository}

		value, err := candidate.ExtractWordValue()
		if err != nil {
			return nil, err
		}

		if value == wordValue {
			return candidate, nil
		}
	}

	word, err := e.wordRepository.Provide(wordValue)
	if err != nil {
		return nil, err
	}

	class, err := e.classRepository.ProvideEntity()
	if err != nil {
		return nil, err
	}

	phrase, err := e.phraseFactory.CreateTailEntity(class, word, e.phrase)
	if err != nil {
		return nil, err
	}

	return Element{phrase, e.phraseStorage, e.phraseFactory, e.classRepository, e.wordRepository}, nil
}
'''))

r('w25-output-recursive-builder',
 ('output.go','@func (o *Output) GetStory','''
func (o *Output) GetStory(remark Remark) (string, error) {

	var builder strings.Builder

	first, err := remark.GetFirstFact()
	if err == nil {
		err = o.render(&builder, first)
	}
	if err != nil {
		return "", err
	}

	return builder.String(), nil
}

func (o *Output) render(builder *strings.Builder, remark abstractRemark.Aggregate) error {

	for {
		object, property, err := remark.GetObjectAndProperty()
		if err != nil {
			return err
		}

		fmt.Fprintf(builder, "%s %s ", object, property)

		more, err := remark.HasNextRemark()
		if err != nil || !more {
			return err
		}

		if remark, err = remark.GetNextRemark(); err != nil {
			return err
		}
	}
}
'''),('output.go','import "bytes"','import (\n	"fmt"\n	"strings"\n\n	abstractRemark "github.com/mem-memov/semnet/internal/abstract/remark"\n)'))
