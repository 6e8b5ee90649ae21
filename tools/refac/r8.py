R=[]
C='internal/concrete/'
def r(id,*edits): R.append(dict(id=id,edits=list(edits)))

# post statement loop over has/get
r('y01-fact-for-post',(C+'fact/repository.go','''	lastFact := fact
	for {
		hasTargetFact, err := lastFact.HasTargetFact()
		if err != nil {
			return nil, err
		}

		if !hasTargetFact {
			break
		}

		targetFact, err := lastFact.GetTargetFact()
		if err != nil {
			return nil, err
		}

		lastFact, err = r.factStorage.ReadEntityByPosition(targetFact)
		if err != nil {
			return nil, err
		}
	}

	err = lastFact.PointToPosition''','''	lastFact := fact
	more, err := lastFact.HasTargetFact()
	for ; more && err == nil; more, err = lastFact.HasTargetFact() {
		var targetFact uint
		if targetFact, err = lastFact.GetTargetFact(); err != nil {
			break
		}
		if lastFact, err = r.factStorage.ReadEntityByPosition(targetFact); err != nil {
			break
		}
	}
	if err != nil {
		return nil, err
	}

	err = lastFact.PointToPosition'''))

# step function returning (next, done, err)
r('y02-fact-step',(C+'fact/repository.go','''	for {
		hasTargetFact, err := lastFact.HasTargetFact()
		if err != nil {
			return nil, err
		}

		if !hasTargetFact {
			break
		}

		targetFact, err := lastFact.GetTargetFact()
		if err != nil {
			return nil, err
		}

		lastFact, err = r.factStorage.ReadEntityByPosition(targetFact)
		if err != nil {
			return nil, err
		}
	}
''','''	for moved := true; moved; {
		lastFact, moved, err = r.step(lastFact)
		if err != nil {
			return nil, err
		}
	}
'''),(C+'fact/repository.go','func (r *Repository) CreateChildStoryFact','''func (r *Repository) step(fact abstractFact.Entity) (abstractFact.Entity, bool, error) {

	has, err := fact.HasTargetFact()
	if err != nil || !has {
		return fact, false, err
	}

	target, err := fact.GetTargetFact()
	if err != nil {
		return nil, false, err
	}

	next, err := r.factStorage.ReadEntityByPosition(target)

	return next, true, err
}

func (r *Repository) CreateChildStoryFact'''))

# work with identifiers instead of entities
r('y03-fact-position-walk',(C+'fact/repository.go','''	lastFact := fact
	for {
		hasTargetFact, err := lastFact.HasTargetFact()
		if err != nil {
			return nil, err
		}

		if !hasTargetFact {
			break
		}

		targetFact, err := lastFact.GetTargetFact()
		if err != nil {
			return nil, err
		}

		lastFact, err = r.factStorage.ReadEntityByPosition(targetFact)
		if err != nil {
			return nil, err
		}
	}

	err = lastFact.PointToPosition''','''	lastFact, err := r.findLast(fact.GetPosition())
	if err != nil {
		return nil, err
	}

	err = lastFact.PointToPosition'''),(C+'fact/repository.go','func (r *Repository) CreateChildStoryFact','''// findLast follows the chain of facts starting at a position.
func (r *Repository) findLast(position uint) (abstractFact.Entity, error) {

	current, err := r.factStorage.ReadEntityByPosition(position)
	if err != nil {
		return nil, err
	}

	for {
		hasTarget, err := current.HasTargetFact()
		if err != nil {
			return nil, err
		}

		if hasTarget {
			next, err := current.GetTargetFact()
			if err != nil {
				return nil, err
			}

			current, err = r.factStorage.ReadEntityByPosition(next)
			if err != nil {
				return nil, err
			}

			continue
		}

		return current, nil
	}
}

func (r *Repository) CreateChildStoryFact'''))

# aggregate helper
r('y04-fact-wrap',(C+'fact/aggregate.go','''	return Aggregate{
		fact:            nextFact,
		factStorage:     a.factStorage,
		storyRepository: a.storyRepository,
	}, nil''','''	return a.with(nextFact), nil''','all'),
 (C+'fact/aggregate.go','''	return Aggregate{
		fact:            parentFact,
		factStorage:     a.factStorage,
		storyRepository: a.storyRepository,
	}, nil''','''	a.fact = parentFact

	return a, nil'''),
 (C+'fact/aggregate.go','''	return Aggregate{
		fact:            firstFact,
		factStorage:     a.factStorage,
		storyRepository: a.storyRepository,
	}, nil''','''	first := a
	first.fact = firstFact

	return first, nil'''),
 (C+'fact/aggregate.go','func (a Aggregate) GetFirstRemark()','''func (a Aggregate) with(fact abstractFact.Entity) Aggregate {
	a.fact = fact
	return a
}

func (a Aggregate) GetFirstRemark()'''))

# story lookup helper in the fact aggregate
r('y05-fact-story-of',(C+'fact/aggregate.go','''	storyIdentifier, err := a.fact.GetTargetStory()
	if err != nil {
		return nil, err
	}

	story, err := a.storyRepository.FetchByFact(storyIdentifier)
	if err != nil {
		return nil, err
	}
''','''	story, err := a.story()
	if err != nil {
		return nil, err
	}
''','all'),(C+'fact/aggregate.go','''	storyIdentifier, err := a.fact.GetTargetStory()
	if err != nil {
		return false, err
	}

	story, err := a.storyRepository.FetchByFact(storyIdentifier)
	if err != nil {
		return false, err
	}
''','''	story, err := a.story()
	if err != nil {
		return false, err
	}
''','all'),(C+'fact/aggregate.go','func (a Aggregate) GetFirstRemark()','''func (a Aggregate) story() (story abstractStory.Entity, err error) {

	var identifier uint
	if identifier, err = a.fact.GetTargetStory(); err == nil {
		story, err = a.storyRepository.FetchByFact(identifier)
	}

	return
}

// entry gives the fact a story begins with.
func (a Aggregate) entry(story abstractStory.Entity) (abstractFact.Aggregate, error) {

	identifier, err := story.GetTargetFact()
	if err != nil {
		return nil, err
	}

	fact, err := a.factStorage.ReadEntityByStory(identifier)
	if err != nil {
		return nil, err
	}

	return Aggregate{fact, a.factStorage, a.storyRepository}, nil
}

func (a Aggregate) GetFirstRemark()'''),
 (C+'fact/aggregate.go','''	nextFactIdentifier, err := nextStory.GetTargetFact()
	if err != nil {
		return nil, err
	}

	nextFact, err := a.factStorage.ReadEntityByStory(nextFactIdentifier)
	if err != nil {
		return nil, err
	}

	return Aggregate{
		fact:            nextFact,
		factStorage:     a.factStorage,
		storyRepository: a.storyRepository,
	}, nil''','	return a.entry(nextStory)'),
 (C+'fact/aggregate.go','''	parentFactIdentifier, err := parentStory.GetTargetFact()
	if err != nil {
		return nil, err
	}

	parentFact, err := a.factStorage.ReadEntityByStory(parentFactIdentifier)
	if err != nil {
		return nil, err
	}

	return Aggregate{
		fact:            parentFact,
		factStorage:     a.factStorage,
		storyRepository: a.storyRepository,
	}, nil''','	return a.entry(parentStory)'))

# nested ifs, single exit
r('y06-word-single-exit',(C+'word/repository.go','@func (r *Repository) Provide','''
func (r *Repository) Provide(word string) (aggregate abstractWord.Aggregate, err error) {

	var characters path
	var element abstractWord.Element

	if characters, err = r.paths.collect(word); err == nil {
		if element, err = r.wordElements.ProvideFirstElement(characters[0]); err == nil {
			for i := 1; i < len(characters) && err == nil; i++ {
				element, err = element.ProvideNextElement(characters[i])
			}
		}
	}

	if err != nil {
		return nil, err
	}

	aggregate = Aggregate{
		word:         element.GetEntity(),
		wordElements: r.wordElements,
		paths:        r.paths,
	}

	return aggregate, nil
}
'''))

# recover the first error through a deferred function
r('y07-deferred-nil',(C+'detail/repository.go','@func (r *Repository) Provide','''
func (r *Repository) Provide(object string, property string) (aggregate abstractDetail.Aggregate, err error) {

	defer func() {
		if err != nil {
			aggregate = nil
		}
	}()

	objectPhrase, err := r.phraseRepository.Provide(object)
	if err != nil {
		return
	}

	propertyPhrase, err := r.phraseRepository.Provide(property)
	if err != nil {
		return
	}

	class, err := r.classRepository.ProvideEntity()
	if err != nil {
		return
	}

	detail, err := r.detailFactory.ProvideEntity(class, objectPhrase, propertyPhrase)

	aggregate = r.wrap(detail)

	return
}

func (r *Repository) wrap(detail abstractDetail.Entity) Aggregate {

	return Aggregate{
		detail:           detail,
		detailStorage:    r.detailStorage,
		detailFactory:    r.detailFactory,
		classRepository:  r.classRepository,
		phraseRepository: r.phraseRepository,
	}
}
'''))

# sibling search in one loop, without intermediate list, closures for matching
r('y08-word-match-closure',(C+'word/element.go','''	targetWords := make([]abstractWord.Entity, 0, len(targetWordIdentifiers))
	for _, targetWordIdentifier := range targetWordIdentifiers {

		targetWord, err := e.wordStorage.ReadEntityByWord(targetWordIdentifier)
		if err != nil {
			return nil, err
		}

		targetWords = append(targetWords, targetWord)
	}

	// use existing
	for _, targetWord := range targetWords {
		targetCharacterIdentifier, err := targetWord.GetTargetCharacter()
		if err != nil {
			return nil, err
		}

		targetCharacter, err := e.characterRepository.Fetch(targetCharacterIdentifier)
		if err != nil {
			return nil, err
		}

		targetValue, err := targetCharacter.Extract()
		if err != nil {
			return nil, err
		}

		if characterValue == targetValue {
			return Element{
				word:                targetWord,
				wordStorage:         e.wordStorage,
				wordFactory:         e.wordFactory,
				classRepository:     e.classRepository,
				characterRepository: e.characterRepository,
			}, nil
		}
	}
''','''	matches := func(identifier uint) (bool, Element, error) {
		word, err := e.wordStorage.ReadEntityByWord(identifier)
		if err != nil {
			return false, Element{}, err
		}

		candidate := e
		candidate.word = word

		value, err := candidate.ExtractCharacterValue()

		return err == nil && value == characterValue, candidate, err
	}

	for _, identifier := range targetWordIdentifiers {
		same, candidate, err := matches(identifier)
		if err != nil {
			return nil, err
		}

		if same {
			return candidate, nil
		}
	}
'''))

# separate find and create methods
r('y09-word-find-create',(C+'word/element.go','@func (e Element) ProvideNextElement','''
func (e Element) ProvideNextElement(characterValue rune) (abstractWord.Element, error) {

	existing, err := e.findNext(characterValue)
	if err != nil || existing != nil {
		return existing, err
	}

	return e.createNext(characterValue)
}

func (e Element) findNext(characterValue rune) (abstractWord.Element, error) {

	identifiers, err := e.word.GetTargetWords()
	if err != nil {
		return nil, err
	}

	candidates := make([]Element, len(identifiers))
	for i := range identifiers {
		word, err := e.wordStorage.ReadEntityByWord(identifiers[i])
		if err != nil {
			return nil, err
		}

		candidates[i] = e.at(word)
	}

	for _, candidate := range candidates {
		value, err := candidate.ExtractCharacterValue()
		if err != nil {
			return nil, err
		}

		if value == characterValue {
			return candidate, nil
		}
	}

	return nil, nil
}

func (e Element) createNext(characterValue rune) (abstractWord.Element, error) {

	class, err := e.classRepository.ProvideEntity()
	if err != nil {
		return nil, err
	}

	character, err := e.characterRepository.Provide(characterValue)
	if err != nil {
		return nil, err
	}

	word, err := e.wordFactory.CreateTailEntity(class, character, e.word)
	if err != nil {
		return nil, err
	}

	if err := e.word.PointToWord(word.GetWord()); err != nil {
		return nil, err
	}

	return e.at(word), nil
}

func (e Element) at(word abstractWord.Entity) Element {

	e.word = word

	return e
}
'''))

# phrase: identical
# detail factory: index of first match plus check of the rest
r('y11-detail-once',(C+'detail/factory.go','''	commonDetailIdentifiers := make([]uint, 0, 1)

	// TODO: optimize (cut tails, use map, sort)
	for _, objectTargetDetail := range objectTargetDetails {
		for _, propertySourceDetail := range propertySourceDetails {
			if propertySourceDetail == objectTargetDetail {
				commonDetailIdentifiers = append(commonDetailIdentifiers, propertySourceDetail)
			}
		}
	}

	switch len(commonDetailIdentifiers) {
	case 0:
		return f.storage.CreateEntity(classEntity, objectPhrase, propertyPhrase)
	case 1:
		return f.storage.ReadEntityByPhrase(commonDetailIdentifiers[0])
	default:
		return Entity{}, fmt.Errorf("phrases have too many common details")
	}
''','''	common := intersect(objectTargetDetails, propertySourceDetails)

	if len(common) > 1 {
		return Entity{}, fmt.Errorf("phrases have too many common details")
	}

	for _, identifier := range common {
		return f.storage.ReadEntityByPhrase(identifier)
	}

	return f.storage.CreateEntity(classEntity, objectPhrase, propertyPhrase)
'''),(C+'detail/factory.go','func (f *Factory) ProvideEntity','''func intersect(left []uint, right []uint) []uint {

	var common []uint

	for i := 0; i < len(left); i++ {
		for j := 0; j < len(right); j++ {
			if left[i] != right[j] {
				continue
			}

			common = append(common, left[i])
		}
	}

	return common
}

func (f *Factory) ProvideEntity'''))

# entity read helper with kind names
r('y12-remark-single',(C+'fact/entity.go','@func (e Entity) GetTargetFact','''
func (e Entity) GetTargetFact() (uint, error) {

	return e.only(e.position, "target facts")
}
'''),(C+'fact/entity.go','@func (e Entity) GetFirstRemark','''
func (e Entity) GetFirstRemark() (uint, error) {

	return e.only(e.remark, "first remarks")
}
'''),(C+'fact/entity.go','@func (e Entity) GetTargetStory','''
func (e Entity) GetTargetStory() (uint, error) {

	return e.only(e.story, "stories")
}

func (e Entity) only(node uint, kind string) (target uint, err error) {

	targets, err := e.storage.ReadTargets(node)

	switch {
	case err != nil:
	case len(targets) == 1:
		target = targets[0]
	default:
		err = fmt.Errorf("fact has wrong number of %s: %d at %d", kind, len(targets), node)
	}

	return target, err
}
'''))

# chained storage
r('y13-fact-storage-chain',(C+'fact/storage.go','@func (s *Storage) ReadEntityByRemark','''
func (s *Storage) ReadEntityByRemark(remark uint) (abstractFact.Entity, error) {

	class, _, err := s.storage.GetReference(remark)
	if err != nil {
		return Entity{}, err
	}

	return s.ReadEntityByClass(class)
}
'''),(C+'fact/storage.go','@func (s *Storage) ReadEntityByPosition','''
func (s *Storage) ReadEntityByPosition(position uint) (abstractFact.Entity, error) {

	remark, _, err := s.storage.GetReference(position)
	if err != nil {
		return Entity{}, err
	}

	return s.ReadEntityByRemark(remark)
}
'''),(C+'fact/storage.go','@func (s *Storage) ReadEntityByStory','''
func (s *Storage) ReadEntityByStory(story uint) (abstractFact.Entity, error) {

	position, _, err := s.storage.GetReference(story)
	if err != nil {
		return Entity{}, err
	}

	return s.ReadEntityByPosition(position)
}
'''))

r('y14-story-storage-loop',(C+'story/storage.go','@func (s *Storage) CreateEntity','''
func (s *Storage) CreateEntity(class uint) (abstractStory.Entity, error) {

	entity := Entity{class: class, storage: s.storage}

	for _, node := range []*uint{&entity.fact, &entity.position, &entity.tree} {
		identifier, err := s.storage.Create()
		if err != nil {
			return Entity{}, err
		}

		*node = identifier
	}

	links := [][2]uint{
		{entity.class, entity.fact},
		{entity.fact, entity.position},
		{entity.position, entity.tree},
	}

	for _, link := range links {
		if err := s.storage.SetReference(link[0], link[1]); err != nil {
			return Entity{}, err
		}
	}

	return entity, nil
}
'''))

r('y15-output-lines',('output.go','@func (o *Output) GetStory','''
func (o *Output) GetStory(remark Remark) (string, error) {

	var parts []string

	current, err := remark.GetFirstFact()

	for err == nil {
		var object, property string

		object, property, err = current.GetObjectAndProperty()
		if err != nil {
			break
		}

		parts = append(parts, object, property)

		var more bool

		more, err = current.HasNextRemark()
		if err != nil {
			break
		}

		if !more {
			return strings.Join(parts, " ") + " ", nil
		}

		current, err = current.GetNextRemark()
	}

	return "", err
}
'''),('output.go','import "bytes"','import "strings"'))

r('y16-output-collect-then-format',('output.go','@func (o *Output) GetStory','''
func (o *Output) GetStory(remark Remark) (string, error) {

	details, err := o.details(remark)
	if err != nil {
		return "", err
	}

	var buffer bytes.Buffer

	for _, detail := range details {
		buffer.WriteString(detail.object + " " + detail.property + " ")
	}

	return buffer.String(), nil
}

type pair struct {
	object   string
	property string
}

func (o *Output) details(remark Remark) ([]pair, error) {

	current, err := remark.GetFirstFact()
	if err != nil {
		return nil, err
	}

	var details []pair

	for {
		object, property, err := current.GetObjectAndProperty()
		if err != nil {
			return nil, err
		}

		details = append(details, pair{object, property})

		if hasNext, err := current.HasNextRemark(); err != nil {
			return nil, err
		} else if !hasNext {
			return details, nil
		}

		if current, err = current.GetNextRemark(); err != nil {
			return nil, err
		}
	}
}
'''))

r('y17-output-callback',('output.go','@func (o *Output) GetStory','''
func (o *Output) GetStory(remark Remark) (string, error) {

	var buffer bytes.Buffer

	err := o.walk(remark, func(object string, property string) {
		for _, text := range [...]string{object, property} {
			buffer.WriteString(text)
			buffer.WriteByte(' ')
		}
	})
	if err != nil {
		return "", err
	}

	return buffer.String(), nil
}

func (o *Output) walk(remark Remark, visit func(object string, property string)) error {

	current, err := remark.GetFirstFact()
	if err != nil {
		return err
	}

	for {
		object, property, err := current.GetObjectAndProperty()
		if err != nil {
			return err
		}

		visit(object, property)

		hasNext, err := current.HasNextRemark()
		if err != nil || !hasNext {
			return err
		}

		current, err = current.GetNextRemark()
		if err != nil {
			return err
		}
	}
}
'''))

r('y18-layer-helpers',(C+'bit/layer.go','@func (l *layer) initialize','''
func (l *layer) initialize() (Entity, Entity, error) {

	if l.isInitialized {
		return l.zeroEntity, l.oneEntity, nil
	}

	zero, one, err := l.load()
	if err != nil {
		return Entity{}, Entity{}, err
	}

	l.zeroEntity, l.oneEntity, l.isInitialized = zero, one, true

	return zero, one, nil
}

func (l *layer) load() (zero Entity, one Entity, err error) {

	classEntity, err := l.classRepository.ProvideEntity()
	if err != nil {
		return zero, one, err
	}

	identifiers, err := classEntity.GetAllBits()
	if err != nil {
		return zero, one, err
	}

	attach := l.read

	switch len(identifiers) {
	case 0:
		attach = l.create
		for i := 0; i < 2; i++ {
			identifier, err := classEntity.CreateBit()
			if err != nil {
				return zero, one, err
			}
			identifiers = append(identifiers, identifier)
		}
	case 2:
	default:
		return zero, one, fmt.Errorf("wrong number of bit nodes in class %d", len(identifiers))
	}

	first, second := ordered(identifiers[0], identifiers[1])

	if zero, err = attach(false, first); err != nil {
		return zero, one, err
	}

	one, err = attach(true, second)

	return zero, one, err
}

func ordered(a uint, b uint) (uint, uint) {
	if b <= a {
		return b, a
	}
	return a, b
}

func (l *layer) create(value bool, class uint) (Entity, error) {

	character, err := l.storage.Create()
	if err != nil {
		return Entity{}, err
	}

	err = l.storage.SetReference(class, character)
	if err != nil {
		return Entity{}, err
	}

	return newEntity(value, class, character, l.storage), nil
}

func (l *layer) read(value bool, class uint) (Entity, error) {

	_, character, err := l.storage.GetReference(class)
	if err != nil {
		return Entity{}, err
	}

	return newEntity(value, class, character, l.storage), nil
}
'''))

r('y20-remark-wrap-all',(C+'remark/repository.go','''	return Aggregate{
		remark:           remark,
		remarkStorage:    r.remarkStorage,
		classRepository:  r.classRepository,
		detailRepository: r.detailRepository,
		factRepository:   r.factRepository,
	}, nil''','	return r.wrap(remark)','all'),(C+'remark/repository.go','func (r *Repository) GetRemark','''func (r *Repository) wrap(entity abstractRemark.Entity) (abstractRemark.Aggregate, error) {

	aggregate := &Aggregate{remark: entity}
	aggregate.remarkStorage = r.remarkStorage
	aggregate.classRepository = r.classRepository
	aggregate.detailRepository = r.detailRepository
	aggregate.factRepository = r.factRepository

	return *aggregate, nil
}

func (r *Repository) GetRemark'''))

r('y21-remark-order',(C+'remark/repository.go','''	isRemark, err := class.IsRemark(remarkIdentifier)
	if err != nil {
		return nil, err
	}

	if !isRemark {
		return nil, fmt.Errorf("remark has wrong class: %d", remarkIdentifier)
	}
''','''	if isRemark, err := class.IsRemark(remarkIdentifier); err != nil {
		return nil, err
	} else if isRemark == false {
		return nil, fmt.Errorf("remark has wrong class: %d", remarkIdentifier)
	}
'''),(C+'remark/repository.go','''	remark, err := r.remarkStorage.ReadEntityByClass(remarkIdentifier)
	if err != nil {
		return nil, err
	}

	class, err''','''	class, err'''),(C+'remark/repository.go','''is wrong class''','''x''') if False else (C+'remark/repository.go','''	return Aggregate{
		remark:           remark,
''','''	remark, err := r.remarkStorage.ReadEntityByClass(remarkIdentifier)
	if err != nil {
		return nil, err
	}

	return Aggregate{
		remark:           remark,
''',1))

r('y23-path-copy',(C+'word/path.go','@func (p path) reverse','''
func (p path) reverse() path {

	reversed := append(path(nil), p...)

	for left, right := 0, len(reversed)-1; left < right; {
		reversed[left], reversed[right] = reversed[right], reversed[left]
		left++
		right--
	}

	return reversed
}
'''))

r('y24-node-error-flow',(C+'class/node/story.go','@func (s Story) Create','''
func (s Story) Create() (identifier uint, err error) {

	if identifier, err = s.storage.Create(); err != nil {
		return 0, err
	}

	if err = s.storage.Connect(identifier, s.identifier); err != nil {
		identifier = 0
	}

	return
}
'''),(C+'class/node/story.go','@func (s Story) Is','''
func (s Story) Is(identifier uint) (bool, error) {

	targets, err := s.storage.ReadTargets(identifier)

	if err == nil && len(targets) != 1 {
		err = fmt.Errorf("wrong number of targets at story class node %d", identifier)
	}

	if err != nil {
		return false, err
	}

	return s.identifier == targets[0], nil
}
'''))

r('y25-child-last-helper',(C+'fact/repository.go','''		siblingStory, err := r.storyRepository.FetchByTree(siblingTrees[0])
		if err != nil {
			return nil, err
		}

		for {
			hasTargetPosition, err := siblingStory.HasTargetPosition()
			if err != nil {
				return nil, err
			}

			if !hasTargetPosition {
				break
			}

			targetPosition, err := siblingStory.GetTargetPosition()
			if err != nil {
				return nil, err
			}

			siblingStory, err = r.storyRepository.FetchByPosition(targetPosition)
			if err != nil {
				return nil, err
			}
		}

		err = siblingStory.PointToPosition(childStory.GetPosition())
		if err != nil {
			return nil, err
		}

''','''		if err := r.appendSibling(siblingTrees[0], childStory.GetPosition()); err != nil {
			return nil, err
		}
'''),(C+'fact/repository.go','func (r *Repository) CreateNextFact','''func (r *Repository) appendSibling(tree uint, position uint) error {

	sibling, err := r.storyRepository.FetchByTree(tree)

	for err == nil {
		var hasNext bool

		hasNext, err = sibling.HasTargetPosition()
		if err != nil {
			return err
		}

		if !hasNext {
			return sibling.PointToPosition(position)
		}

		var next uint

		next, err = sibling.GetTargetPosition()
		if err != nil {
			return err
		}

		sibling, err = r.storyRepository.FetchByPosition(next)
	}

	return err
}

func (r *Repository) CreateNextFact'''))

r('y26-new-story-fact',(C+'fact/repository.go','@func (r *Repository) CreateFirstStoryFact','''
func (r *Repository) CreateFirstStoryFact() (abstractFact.Aggregate, error) {

	fact, err := r.createFact()
	if err != nil {
		return nil, err
	}

	story, err := r.storyRepository.CreateStory()
	if err != nil {
		return nil, err
	}

	if err := connect(fact, story); err != nil {
		return nil, err
	}

	return Aggregate{
		fact:            fact,
		factStorage:     r.factStorage,
		storyRepository: r.storyRepository,
	}, nil
}

func (r *Repository) createFact() (abstractFact.Entity, error) {

	class, err := r.classRepository.ProvideEntity()
	if err != nil {
		return nil, err
	}

	identifier, err := class.CreateFact()
	if err != nil {
		return nil, err
	}

	return r.factStorage.CreateEntity(identifier)
}

func connect(fact abstractFact.Entity, story abstractStory.Entity) error {

	if err := story.PointToFact(fact.GetStory()); err != nil {
		return err
	}

	return fact.PointToStory(story.GetFact())
}
'''),(C+'fact/repository.go','''	class, err := r.classRepository.ProvideEntity()
	if err != nil {
		return nil, err
	}

	classIdentifier, err := class.CreateFact()
	if err != nil {
		return nil, err
	}

	nextFact, err := r.factStorage.CreateEntity(classIdentifier)
''','''	nextFact, err := r.createFact()
'''),(C+'fact/repository.go','''	class, err := r.classRepository.ProvideEntity()
	if err != nil {
		return nil, err
	}

	classIdentifier, err := class.CreateFact()
	if err != nil {
		return nil, err
	}

	firstFact, err := r.factStorage.CreateEntity(classIdentifier)
''','''	firstFact, err := r.createFact()
'''),(C+'fact/repository.go','''	err = firstFact.PointToStory(childStory.GetFact())
	if err != nil {
		return nil, err
	}

	err = childStory.PointToFact(firstFact.GetStory())
	if err != nil {
		return nil, err
	}
''','''	err = connect(firstFact, childStory)
	if err != nil {
		return nil, err
	}
'''))

r('y27-graph-must',('graph.go','@func (g *Graph) CreateStory','''
func (g *Graph) CreateStory(object string, property string) (Remark, error) {

	return newRemark(g.remarkRepository.CreateFirstUserRemark(object, property))
}

func newRemark(aggregate abstractRemark.Aggregate, err error) (Remark, error) {

	if err != nil {
		return Remark{}, err
	}

	return Remark{aggregate}, nil
}
'''),('graph.go','@func (g *Graph) GetRemark','''
func (g *Graph) GetRemark(remarkIdentifier uint) (Remark, error) {

	return newRemark(g.remarkRepository.GetRemark(remarkIdentifier))
}
'''),('graph.go','	"github.com/mem-memov/semnet/internal/abstract"\n','	"github.com/mem-memov/semnet/internal/abstract"\n	abstractRemark "github.com/mem-memov/semnet/internal/abstract/remark"\n'))

r('y28-head-entity-else',(C+'word/factory.go','@func (f *Factory) ProvideHeadEntity','''
func (f *Factory) ProvideHeadEntity(
	classEntity abstractClass.Entity,
	characterAggregate abstractCharacter.Aggregate,
) (abstractWord.Entity, error) {

	hasTargetWord, err := characterAggregate.HasTargetWord()

	switch {
	case err != nil:
		return Entity{}, err
	case hasTargetWord:
		identifier, err := characterAggregate.GetTargetWord()
		if err != nil {
			return nil, err
		}
		return f.wordStorage.ReadEntityByCharacter(identifier)
	}

	word, err := f.createWith(classEntity, characterAggregate)
	if err != nil {
		return nil, err
	}

	return word, characterAggregate.PointToWord(word.GetCharacter())
}

func (f *Factory) createWith(classEntity abstractClass.Entity, character abstractCharacter.Aggregate) (abstractWord.Entity, error) {

	class, err := classEntity.CreateWord()
	if err != nil {
		return nil, err
	}

	word, err := f.wordStorage.CreateEntity(class)
	if err != nil {
		return nil, err
	}

	return word, word.PointToCharacter(character.GetWord())
}
'''),(C+'word/factory.go','@func (f *Factory) CreateTailEntity','''
func (f *Factory) CreateTailEntity(
	classEntity abstractClass.Entity,
	characterAggregate abstractCharacter.Aggregate,
	previousWordEntity abstractWord.Entity,
) (abstractWord.Entity, error) {

	word, err := f.createWith(classEntity, characterAggregate)
	if err != nil {
		return nil, err
	}

	err = previousWordEntity.PointToWord(word.GetWord())
	if err != nil {
		return nil, err
	}

	return word, nil
}
'''))

r('y29-extract-rune-list',(C+'word/aggregate.go','@func (a Aggregate) Extract','''
func (a Aggregate) Extract() (string, error) {

	elements, err := a.chain()
	if err != nil {
		return "", err
	}

	var builder strings.Builder

	for i := len(elements) - 1; i >= 0; i-- {
		value, err := elements[i].ExtractCharacterValue()
		if err != nil {
			return "", err
		}

		builder.WriteRune(value)
	}

	return builder.String(), nil
}

func (a Aggregate) chain() ([]abstractWord.Element, error) {

	element := a.wordElements.CreateLastElement(a.word)
	elements := []abstractWord.Element{element}

	for {
		hasPrevious, err := element.HasPreviousElement()
		if err != nil {
			return nil, err
		}

		if !hasPrevious {
			return elements, nil
		}

		element, err = element.GetPreviousElement()
		if err != nil {
			return nil, err
		}

		elements = append(elements, element)
	}
}
'''),(C+'word/aggregate.go','import (\n','import (\n	"strings"\n\n'))

r('y30-phrase-provide-recursive',(C+'word/repository.go','''	for _, characterValue := range path[1:] {

		wordElement, err = wordElement.ProvideNextElement(characterValue)
		if err != nil {
			return nil, err
		}
	}
''','''	wordElement, err = descend(wordElement, path[1:])
	if err != nil {
		return nil, err
	}
'''),(C+'word/repository.go','func (r *Repository) Fetch','''func descend(element abstractWord.Element, rest []rune) (abstractWord.Element, error) {

	if len(rest) == 0 {
		return element, nil
	}

	next, err := element.ProvideNextElement(rest[0])
	if err != nil {
		return nil, err
	}

	return descend(next, rest[1:])
}

func (r *Repository) Fetch'''))
r('y31-youngest',(C+'fact/repository.go','siblingTrees[0]','siblingTrees[len(siblingTrees)-1]'))
r('y31-middle',(C+'fact/repository.go','siblingTrees[0]','siblingTrees[len(siblingTrees)/2]'))
r('y31-fromfirst',(C+'fact/repository.go','''	lastFact := fact
''','''	firstFact, err := story.GetTargetFact()
	if err != nil {
		return nil, err
	}

	lastFact, err := r.factStorage.ReadEntityByStory(firstFact)
	if err != nil {
		return nil, err
	}

'''))
r('y31-allsib',(C+'fact/repository.go','''		siblingStory, err := r.storyRepository.FetchByTree(siblingTrees[0])
		if err != nil {
			return nil, err
		}

		for {
			hasTargetPosition, err := siblingStory.HasTargetPosition()
			if err != nil {
				return nil, err
			}

			if !hasTargetPosition {
				break
			}

			targetPosition, err := siblingStory.GetTargetPosition()
			if err != nil {
				return nil, err
			}

			siblingStory, err = r.storyRepository.FetchByPosition(targetPosition)
			if err != nil {
				return nil, err
			}
		}

		err = siblingStory.PointToPosition(childStory.GetPosition())
		if err != nil {
			return nil, err
		}
''','''		var last abstractStory.Entity
		for _, siblingTree := range siblingTrees {
			siblingStory, err := r.storyRepository.FetchByTree(siblingTree)
			if err != nil {
				return nil, err
			}

			hasTargetPosition, err := siblingStory.HasTargetPosition()
			if err != nil {
				return nil, err
			}

			if !hasTargetPosition {
				last = siblingStory
				break
			}
		}

		if last == nil {
			return nil, fmt.Errorf("no last child story")
		}

		err = last.PointToPosition(childStory.GetPosition())
		if err != nil {
			return nil, err
		}
'''),(C+'fact/repository.go','import (\n','import (\n	"fmt"\n'))
