R=[]
C='internal/concrete/'
def r(id,*edits): R.append(dict(id=id,edits=list(edits)))

# scanner style walk over facts
SCAN='''
type factScan struct {
	storage abstractFact.Storage
	fact    abstractFact.Entity
	err     error
}

func (s *factScan) next() bool {
	if s.err != nil {
		return false
	}
	has, err := s.fact.HasTargetFact()
	if err != nil {
		s.err = err
		return false
	}
	if !has {
		return false
	}
	position, err := s.fact.GetTargetFact()
	if err != nil {
		s.err = err
		return false
	}
	fact, err := s.storage.ReadEntityByPosition(position)
	if err != nil {
		s.err = err
		return false
	}
	s.fact = fact
	return true
}

func (r *Repository) FetchByRemark('''
LF='''	lastFact := fact
	for {
		hasTargetFact, err := lastFact.HasTargetFact()
		if err != nil {
			return nil, err
		}

		if !hasTargetFact {
			break
		}

		targetFact, err := lastFact.GetTargetFact()
		if err != nil {
			return nil, err
		}

		lastFact, err = r.factStorage.ReadEntityByPosition(targetFact)
		if err != nil {
			return nil, err
		}
	}

	err = lastFact'''
r('A01-scan-facts',(C+'fact/repository.go','func (r *Repository) FetchByRemark(',SCAN.lstrip('\n')),
 (C+'fact/repository.go',LF,'''	scan := factScan{storage: r.factStorage, fact: fact}
	for scan.next() {
	}
	if scan.err != nil {
		return nil, scan.err
	}

	err = scan.fact'''))
r('A02-scan-output',('output.go','@func (o *Output) GetStory','''

func (o *Output) GetStory(remark Remark) (string, error) {

	factRemark, err := remark.GetFirstFact()
	if err != nil {
		return "", err
	}

	var buffer bytes.Buffer

	err = write(&buffer, factRemark)
	for err == nil {
		var hasNextRemark bool

		hasNextRemark, err = factRemark.HasNextRemark()
		if err != nil || !hasNextRemark {
			break
		}

		factRemark, err = factRemark.GetNextRemark()
		if err != nil {
			break
		}

		err = write(&buffer, factRemark)
	}

	if err != nil {
		return "", err
	}

	return buffer.String(), nil
}

type described interface {
	GetObjectAndProperty() (string, string, error)
}

func write(buffer *bytes.Buffer, remark described) error {
	object, property, err := remark.GetObjectAndProperty()
	if err != nil {
		return err
	}

	for _, part := range [...]string{object, property} {
		buffer.WriteString(part)
		buffer.WriteByte(' ')
	}

	return nil
}
'''))
# steps interpreted
r('A03-steps-interp',(C+'fact/repository.go','@func (r *Repository) CreateFirstStoryFact','''
type link struct {
	connect func(uint) error
	target  uint
}

func connectAll(links []link) error {
	for i := range links {
		if err := links[i].connect(links[i].target); err != nil {
			return err
		}
	}
	return nil
}

func (r *Repository) CreateFirstStoryFact() (abstractFact.Aggregate, error) {

	class, err := r.classRepository.ProvideEntity()
	if err != nil {
		return nil, err
	}

	classIdentifier, err := class.CreateFact()
	if err != nil {
		return nil, err
	}

	fact, err := r.factStorage.CreateEntity(classIdentifier)
	if err != nil {
		return nil, err
	}

	story, err := r.storyRepository.CreateStory()
	if err != nil {
		return nil, err
	}

	err = connectAll([]link{
		{fact.PointToStory, story.GetFact()},
		{story.PointToFact, fact.GetStory()},
	})
	if err != nil {
		return nil, err
	}

	return r.aggregate(fact), nil
}

func (r *Repository) aggregate(fact abstractFact.Entity) Aggregate {
	return Aggregate{fact: fact, factStorage: r.factStorage, storyRepository: r.storyRepository}
}
'''),
 (C+'fact/repository.go','''	err = firstFact.PointToStory(childStory.GetFact())
	if err != nil {
		return nil, err
	}

	err = childStory.PointToFact(firstFact.GetStory())
	if err != nil {
		return nil, err
	}

	err = firstRemark.PointToFact(firstFact.GetRemark())
	if err != nil {
		return nil, err
	}

	err = firstFact.PointToRemark(firstRemark.GetFact())
	if err != nil {
		return nil, err
	}

	err = childStory.PointToTree(story.GetTree())
	if err != nil {
		return nil, err
	}
''','''	err = connectAll([]link{
		{firstFact.PointToStory, childStory.GetFact()},
		{childStory.PointToFact, firstFact.GetStory()},
		{firstRemark.PointToFact, firstFact.GetRemark()},
		{firstFact.PointToRemark, firstRemark.GetFact()},
		{childStory.PointToTree, story.GetTree()},
	})
	if err != nil {
		return nil, err
	}
'''))
# single target accessor with ok
for L,E,f,idn in (('story','story','position','A04-story-next-opt'),):
    r(idn,(C+'story/entity.go','@func (e Entity) HasTargetPosition','''
func (e Entity) optional(node uint) (uint, int, error) {
	targets, err := e.storage.ReadTargets(node)
	if err != nil || len(targets) == 0 {
		return 0, 0, err
	}
	return targets[0], len(targets), nil
}

func (e Entity) HasTargetPosition() (bool, error) {
	_, total, err := e.optional(e.position)
	return err == nil && total > 0, err
}
'''),(C+'story/entity.go','@func (e Entity) GetTargetPosition','''
func (e Entity) GetTargetPosition() (uint, error) {
	position, total, err := e.optional(e.position)
	switch {
	case err != nil:
		return 0, err
	case total == 1:
		return position, nil
	}
	return 0, fmt.Errorf("story has wrong number of next stories")
}
'''),(C+'story/entity.go','@func (e Entity) HasTargetTree','''
func (e Entity) HasTargetTree() (bool, error) {
	_, total, err := e.optional(e.tree)
	return err == nil && total > 0, err
}
'''))
# reading by generic walk along chain
r('A05-story-chain-walk',(C+'story/storage.go','@func (s *Storage) ReadEntityByTree','''
func (s *Storage) chain(node uint, before int, after int) ([]uint, error) {
	nodes := make([]uint, before+1+after)
	nodes[before] = node
	for i := before; i > 0; i-- {
		previous, _, err := s.storage.GetReference(nodes[i])
		if err != nil {
			return nil, err
		}
		nodes[i-1] = previous
	}
	for i := before; i < before+after; i++ {
		_, next, err := s.storage.GetReference(nodes[i])
		if err != nil {
			return nil, err
		}
		nodes[i+1] = next
	}
	return nodes, nil
}

func (s *Storage) ReadEntityByTree(tree uint) (abstractStory.Entity, error) {
	nodes, err := s.chain(tree, 3, 0)
	if err != nil {
		return Entity{}, err
	}
	return Entity{
		class:    nodes[0],
		fact:     nodes[1],
		position: nodes[2],
		tree:     nodes[3],
		storage:  s.storage,
	}, nil
}
'''),(C+'story/storage.go','@func (s *Storage) ReadEntityByFact','''
func (s *Storage) ReadEntityByFact(fact uint) (abstractStory.Entity, error) {
	nodes, err := s.chain(fact, 1, 2)
	if err != nil {
		return Entity{}, err
	}
	return Entity{
		class:    nodes[0],
		fact:     nodes[1],
		position: nodes[2],
		tree:     nodes[3],
		storage:  s.storage,
	}, nil
}
'''))
# search from the end, continue style
r('A06-word-search-back',(C+'word/element.go','''	for _, targetWord := range targetWords {
		targetCharacterIdentifier''','''	for i := len(targetWords); i > 0; i-- {

		targetWord := targetWords[i-1]

		targetCharacterIdentifier''') )
# read rune by strings.Reader
r('A07-word-reader',(C+'word/paths.go','import (\n	"fmt"\n)','import (\n	"fmt"\n	"io"\n	"strings"\n)'),
 (C+'word/paths.go','	path := []rune(word)\n','''	reader := strings.NewReader(word)
	path := path{}
	for {
		character, _, err := reader.ReadRune()
		if err == io.EOF {
			break
		}
		if err != nil {
			return nil, err
		}
		path = append(path, character)
	}
'''))
r('A08-phrase-index-split',(C+'phrase/paths.go','	path := strings.Split(words, " ")\n','''	var path path
	rest := words
	for i := strings.IndexByte(rest, ' '); i >= 0; i = strings.IndexByte(rest, ' ') {
		path = append(path, rest[:i])
		rest = rest[i+1:]
	}
	path = append(path, rest)
'''))
r('A09-phrase-builder',(C+'phrase/path.go','	return strings.Join(p, " ")','''	var text strings.Builder
	for i, word := range p {
		if i > 0 {
			text.WriteString(" ")
		}
		text.WriteString(word)
	}
	return text.String()'''))
r('A10-phrase-extract-noreverse',(C+'phrase/aggregate.go','	return path.reverse().toString(), nil','''	text := ""
	for i := len(path) - 1; i >= 0; i-- {
		text += path[i]
		if i != 0 {
			text += " "
		}
	}
	return text, nil'''))
r('A11-char-extract-weight',(C+'character/aggragate.go','''	var integer int32

	for _, bitValue := range path.reverse() {
		integer <<= 1
		if bitValue {
			integer += 1
		}
	}

	return integer, nil''','''	var integer rune
	for position, bitValue := range path {
		if bitValue {
			integer |= 1 << uint(position)
		}
	}
	return integer, nil'''))
r('A12-bits-shift-down',(C+'character/paths.go','@func (p *paths) collect','''
func (p *paths) collect(integer rune) (path, error) {

	if integer < 0 {
		return path{}, fmt.Errorf("invalid character: %d", integer)
	}

	bitValues := path{integer&1 == 1}
	for rest := integer >> 1; rest != 0; rest >>= 1 {
		bitValues = append(bitValues, rest&1 == 1)
	}

	return bitValues.reverse(), nil
}
'''))
r('A13-detail-common-helper',(C+'detail/factory.go','@func (f *Factory) ProvideEntity','''
func common(left []uint, right []uint) []uint {
	shared := []uint(nil)
	for i := range left {
		if has(right, left[i]) {
			shared = append(shared, left[i])
		}
	}
	return shared
}

func has(identifiers []uint, wanted uint) bool {
	for _, identifier := range identifiers {
		if identifier == wanted {
			return true
		}
	}
	return false
}

func (f *Factory) ProvideEntity(
	classEntity abstractClass.Entity,
	objectPhrase abstractPhrase.Aggregate,
	propertyPhrase abstractPhrase.Aggregate,
) (abstractDetail.Entity, error) {

	objectTargetDetails, err := objectPhrase.GetTargetDetails()
	if err != nil {
		return nil, err
	}

	propertySourceDetails, err := propertyPhrase.GetSourceDetails()
	if err != nil {
		return nil, err
	}

	found := common(objectTargetDetails, propertySourceDetails)
	if len(found) > 1 {
		return nil, fmt.Errorf("phrases have too many common details")
	}
	if len(found) == 1 {
		return f.storage.ReadEntityByPhrase(found[0])
	}

	return f.storage.CreateEntity(classEntity, objectPhrase, propertyPhrase)
}
'''))
r('A14-node-shared-base',(C+'class/node/base.go',None,'''package node

import "fmt"

type base struct {
	identifier uint
	storage    storage
}

func (b base) GetIdentifier() uint {
	return b.identifier
}

func (b base) Create() (uint, error) {
	created, err := b.storage.Create()
	if err == nil {
		err = b.storage.Connect(created, b.identifier)
	}
	if err != nil {
		return 0, err
	}
	return created, nil
}

func (b base) single(identifier uint) (bool, error) {
	targets, err := b.storage.ReadTargets(identifier)
	switch {
	case err != nil:
		return false, err
	case len(targets) == 1:
		return targets[0] == b.identifier, nil
	default:
		return false, fmt.Errorf("wrong number of targets: %d", identifier)
	}
}
'''),(C+'class/node/remark.go','''import "fmt"

type Remark struct {
	identifier uint
	storage    storage
}''','''type Remark struct {
	base
}'''),(C+'class/node/remark.go','''	return Remark{
		identifier: identifier,
		storage:    storage,
	}''','''	return Remark{base{identifier, storage}}'''),
 (C+'class/node/remark.go','@func (r Remark) GetIdentifier',''),(C+'class/node/remark.go','@func (r Remark) Create',''),
 (C+'class/node/remark.go','@func (r Remark) Is','''
func (r Remark) Is(identifier uint) (bool, error) {
	return r.single(identifier)
}
'''))
r('A15-class-next-closure',(C+'class/repository.go','@func (r *Repository) ProvideEntity','''
func (r *Repository) ProvideEntity() (class.Entity, error) {

	if r.isInitialized {
		return r.entity, nil
	}

	hasFirstNode, err := r.storage.Has(bitIdentifier)
	if err != nil {
		return Entity{}, err
	}

	if !hasFirstNode {
		if err := r.createNodes(); err != nil {
			return Entity{}, err
		}
	}

	r.entity = newEntity(
		node.NewBit(bitIdentifier, r.storage),
		node.NewCharacter(characterIdentifier, r.storage),
		node.NewWord(wordIdentifier, r.storage),
		node.NewPhrase(phraseIdentifier, r.storage),
		node.NewDetail(detailIdentifier, r.storage),
		node.NewRemark(remarkIdentifier, r.storage),
		node.NewFact(factIdentifier, r.storage),
		node.NewStory(storyIdentifier, r.storage),
	)
	r.isInitialized = true

	return r.entity, nil
}

func (r *Repository) createNodes() error {

	names := [...]string{"bit", "character", "word", "phrase", "detail", "remark", "fact", "story"}

	var previous uint
	for i, name := range names {
		created, err := r.storage.Create()
		if err != nil {
			return err
		}
		if created != uint(i)+bitIdentifier {
			return fmt.Errorf("wrong %s class node %d", name, created)
		}
		if i > 0 {
			if err := r.storage.SetReference(previous, created); err != nil {
				return err
			}
		}
		previous = created
	}

	return nil
}
'''))
r('A16-remark-new-remark',(C+'remark/repository.go','@func (r *Repository) CreateFirstUserRemark','''
func (r *Repository) CreateFirstUserRemark(object string, property string) (abstractRemark.Aggregate, error) {

	created, err := Aggregate{
		remarkStorage:    r.remarkStorage,
		classRepository:  r.classRepository,
		detailRepository: r.detailRepository,
		factRepository:   r.factRepository,
	}.create(object, property)
	if err != nil {
		return nil, err
	}

	fact, err := r.factRepository.CreateFirstStoryFact()
	if err != nil {
		return nil, err
	}

	for _, connect := range []func() error{
		func() error { return created.remark.PointToFact(fact.GetRemark()) },
		func() error { return fact.PointToRemark(created.remark.GetFact()) },
	} {
		if err := connect(); err != nil {
			return nil, err
		}
	}

	return created, nil
}
'''),(C+'remark/aggregate.go','@func (a Aggregate) AddFactToStory','''
// create makes a remark with a detail and no fact.
func (a Aggregate) create(object string, property string) (Aggregate, error) {

	class, err := a.classRepository.ProvideEntity()
	if err != nil {
		return Aggregate{}, err
	}

	classIdentifier, err := class.CreateRemark()
	if err != nil {
		return Aggregate{}, err
	}

	a.remark, err = a.remarkStorage.CreateEntity(classIdentifier)
	if err != nil {
		return Aggregate{}, err
	}

	detail, err := a.detailRepository.Provide(object, property)
	if err != nil {
		return Aggregate{}, err
	}

	return a, detail.PointToRemark(a.remark.GetDetail())
}

func (a Aggregate) AddFactToStory(object string, property string) (abstractRemark.Aggregate, error) {

	created, err := a.create(object, property)
	if err != nil {
		return nil, err
	}

	factIdentifier, err := a.remark.GetTargetFact()
	if err != nil {
		return nil, err
	}

	if _, err := a.factRepository.CreateNextFact(factIdentifier, created.remark); err != nil {
		return nil, err
	}

	return created, nil
}
'''))
r('A17-remark-fact-cached-local',(C+'remark/aggregate.go','@func (a Aggregate) GetNextFact','''
type factStep func(abstractFact.Aggregate) (abstractFact.Aggregate, error)

func (a Aggregate) follow(steps ...factStep) (abstractRemark.Aggregate, error) {

	factIdentifier, err := a.remark.GetTargetFact()
	if err != nil {
		return nil, err
	}

	fact, err := a.factRepository.FetchByRemark(factIdentifier)
	for i := 0; err == nil && i < len(steps); i++ {
		fact, err = steps[i](fact)
	}
	if err != nil {
		return nil, err
	}

	remarkIdentifier, err := fact.GetFirstRemark()
	if err != nil {
		return nil, err
	}

	a.remark, err = a.remarkStorage.ReadEntityByFact(remarkIdentifier)
	if err != nil {
		return nil, err
	}

	return a, nil
}

func (a Aggregate) GetNextFact() (abstractRemark.Aggregate, error) {

	return a.follow(abstractFact.Aggregate.ToNextFact)
}
'''),(C+'remark/aggregate.go','@func (a Aggregate) GetFirstFact','''
func (a Aggregate) GetFirstFact() (abstractRemark.Aggregate, error) {

	return a.follow(abstractFact.Aggregate.ToFirstFact)
}
'''),(C+'remark/aggregate.go','@func (a Aggregate) GetNextStory','''
func (a Aggregate) GetNextStory() (abstractRemark.Aggregate, error) {

	return a.follow(func(fact abstractFact.Aggregate) (abstractFact.Aggregate, error) { return fact.ToNextStory() })
}
'''))
r('A18-story-of-method-values',(C+'fact/aggregate.go','@func (a Aggregate) ToFirstFact','''
func (a Aggregate) story() (abstractStory.Entity, error) {

	storyIdentifier, err := a.fact.GetTargetStory()
	if err != nil {
		return nil, err
	}

	return a.storyRepository.FetchByFact(storyIdentifier)
}

func (a Aggregate) startOf(story abstractStory.Entity) (abstractFact.Aggregate, error) {

	factIdentifier, err := story.GetTargetFact()
	if err != nil {
		return nil, err
	}

	if a.fact, err = a.factStorage.ReadEntityByStory(factIdentifier); err != nil {
		return nil, err
	}

	return a, nil
}

func (a Aggregate) through(target func() (uint, error), fetch func(uint) (abstractStory.Entity, error)) (abstractFact.Aggregate, error) {

	identifier, err := target()
	if err != nil {
		return nil, err
	}

	story, err := fetch(identifier)
	if err != nil {
		return nil, err
	}

	return a.startOf(story)
}

func (a Aggregate) ToFirstFact() (abstractFact.Aggregate, error) {

	story, err := a.story()
	if err != nil {
		return nil, err
	}

	return a.startOf(story)
}
'''),(C+'fact/aggregate.go','@func (a Aggregate) ToNextStory','''
func (a Aggregate) ToNextStory() (abstractFact.Aggregate, error) {

	story, err := a.story()
	if err != nil {
		return nil, err
	}

	return a.through(story.GetTargetPosition, a.storyRepository.FetchByPosition)
}
'''),(C+'fact/aggregate.go','@func (a Aggregate) ToParentStory','''
func (a Aggregate) ToParentStory() (abstractFact.Aggregate, error) {

	story, err := a.story()
	if err != nil {
		return nil, err
	}

	return a.through(story.GetTargetTree, a.storyRepository.FetchByTree)
}
'''))
r('A19-bit-layer-table',(C+'bit/layer.go','@func (l *layer) initialize','''
func (l *layer) initialize() (Entity, Entity, error) {

	if l.isInitialized {
		return l.zeroEntity, l.oneEntity, nil
	}

	classEntity, err := l.classRepository.ProvideEntity()
	if err != nil {
		return Entity{}, Entity{}, err
	}

	classIdentifiers, err := classEntity.GetAllBits()
	if err != nil {
		return Entity{}, Entity{}, err
	}

	var characterOf func(uint) (uint, error)

	switch len(classIdentifiers) {
	case 2:
		characterOf = func(class uint) (uint, error) {
			_, character, err := l.storage.GetReference(class)
			return character, err
		}
	case 0:
		for len(classIdentifiers) < 2 {
			created, err := classEntity.CreateBit()
			if err != nil {
				return Entity{}, Entity{}, err
			}
			classIdentifiers = append(classIdentifiers, created)
		}
		characterOf = func(class uint) (uint, error) {
			character, err := l.storage.Create()
			if err != nil {
				return 0, err
			}
			return character, l.storage.SetReference(class, character)
		}
	default:
		return Entity{}, Entity{}, fmt.Errorf("wrong number of bit nodes in class %d", len(classIdentifiers))
	}

	zero, one := classIdentifiers[0], classIdentifiers[1]
	if one < zero {
		zero, one = one, zero
	}

	zeroCharacter, err := characterOf(zero)
	if err != nil {
		return Entity{}, Entity{}, err
	}

	oneCharacter, err := characterOf(one)
	if err != nil {
		return Entity{}, Entity{}, err
	}

	l.zeroEntity = newEntity(false, zero, zeroCharacter, l.storage)
	l.oneEntity = newEntity(true, one, oneCharacter, l.storage)
	l.isInitialized = true

	return l.zeroEntity, l.oneEntity, nil
}
'''))
r('A20-sibling-tail-helper',(C+'fact/repository.go','''	if len(siblingTrees) != 0 {

		siblingStory, err := r.storyRepository.FetchByTree(siblingTrees[0])
		if err != nil {
			return nil, err
		}

		for {
			hasTargetPosition, err := siblingStory.HasTargetPosition()
			if err != nil {
				return nil, err
			}

			if !hasTargetPosition {
				break
			}

			targetPosition, err := siblingStory.GetTargetPosition()
			if err != nil {
				return nil, err
			}

			siblingStory, err = r.storyRepository.FetchByPosition(targetPosition)
			if err != nil {
				return nil, err
			}
		}

		err = siblingStory.PointToPosition(childStory.GetPosition())
		if err != nil {
			return nil, err
		}

	}
''','''	for _, siblingTree := range siblingTrees {

		siblingStory, err := r.storyRepository.FetchByTree(siblingTree)
		if err != nil {
			return nil, err
		}

		hasTargetPosition, err := siblingStory.HasTargetPosition()
		if err != nil {
			return nil, err
		}

		if hasTargetPosition {
			continue
		}

		err = siblingStory.PointToPosition(childStory.GetPosition())
		if err != nil {
			return nil, err
		}

		break
	}
'''))
r('A21-collect-stories-first',(C+'fact/repository.go','''	if len(siblingTrees) != 0 {

		siblingStory, err := r.storyRepository.FetchByTree(siblingTrees[0])
		if err != nil {
			return nil, err
		}
''','''	if total := len(siblingTrees); total > 0 {

		siblingStory, err := r.storyRepository.FetchByTree(siblingTrees[total-1])
		if err != nil {
			return nil, err
		}
'''))
r('A22-head-read-first',(C+'word/factory.go','@func (f *Factory) ProvideHeadEntity','''
func (f *Factory) ProvideHeadEntity(
	classEntity abstractClass.Entity,
	characterAggregate abstractCharacter.Aggregate,
) (abstractWord.Entity, error) {

	switch hasTargetWord, err := characterAggregate.HasTargetWord(); {

	case err != nil:
		return nil, err

	case hasTargetWord:
		character, err := characterAggregate.GetTargetWord()
		if err != nil {
			return nil, err
		}

		return f.wordStorage.ReadEntityByCharacter(character)
	}

	created, err := f.create(classEntity, characterAggregate)
	if err != nil {
		return nil, err
	}

	return created, characterAggregate.PointToWord(created.GetCharacter())
}

func (f *Factory) create(classEntity abstractClass.Entity, characterAggregate abstractCharacter.Aggregate) (abstractWord.Entity, error) {

	class, err := classEntity.CreateWord()
	if err != nil {
		return nil, err
	}

	created, err := f.wordStorage.CreateEntity(class)
	if err != nil {
		return nil, err
	}

	return created, created.PointToCharacter(characterAggregate.GetWord())
}
'''),(C+'word/factory.go','@func (f *Factory) CreateTailEntity','''
func (f *Factory) CreateTailEntity(
	classEntity abstractClass.Entity,
	characterAggregate abstractCharacter.Aggregate,
	previousWordEntity abstractWord.Entity,
) (abstractWord.Entity, error) {

	created, err := f.create(classEntity, characterAggregate)
	if err != nil {
		return nil, err
	}

	return created, previousWordEntity.PointToWord(created.GetWord())
}
'''))
r('A23-struct-of-funcs',(C+'story/storage.go','type Storage struct {\n	storage abstract.Storage\n}','type Storage struct {\n	storage   abstract.Storage\n	create    func() (uint, error)\n	reference func(source uint, target uint) error\n}'),
 (C+'story/storage.go','		storage: storage,\n	}\n}','		storage:   storage,\n		create:    storage.Create,\n		reference: storage.SetReference,\n	}\n}',0),
 (C+'story/storage.go','s.storage.Create()','s.create()','all'),(C+'story/storage.go','s.storage.SetReference(','s.reference(','all'))
r('A24-story-create-many',(C+'story/storage.go','@func (s *Storage) CreateEntity','''
func (s *Storage) CreateEntity(class uint) (abstractStory.Entity, error) {

	entity := Entity{class: class, storage: s.storage}

	for _, field := range []*uint{&entity.fact, &entity.position, &entity.tree} {
		identifier, err := s.storage.Create()
		if err != nil {
			return Entity{}, err
		}
		*field = identifier
	}

	source := class
	for _, target := range [3]uint{entity.fact, entity.position, entity.tree} {
		if err := s.storage.SetReference(source, target); err != nil {
			return Entity{}, err
		}
		source = target
	}

	return entity, nil
}
'''))
r('A25-remark-errors-join',(C+'remark/aggregate.go','@func (a Aggregate) HasNextFact','''
func (a Aggregate) HasNextFact() (has bool, err error) {

	fact, err := a.fact()
	if err == nil {
		has, err = fact.HasNextFact()
	}

	return has, err
}

func (a Aggregate) fact() (fact abstractFact.Aggregate, err error) {

	factIdentifier, err := a.remark.GetTargetFact()
	if err == nil {
		fact, err = a.factRepository.FetchByRemark(factIdentifier)
	}

	return
}
'''),(C+'remark/aggregate.go','@func (a Aggregate) HasNextStory','''
func (a Aggregate) HasNextStory() (has bool, err error) {

	fact, err := a.fact()
	if err != nil {
		return
	}

	return fact.HasNextStory()
}
'''))
