R=[]
C='internal/concrete/'
def r(id,*edits): R.append(dict(id=id,edits=list(edits)))

# pointers in place of values
for l in ['character','phrase','detail','fact','remark','story']:
    r('v01-pointer-entity-'+l,(C+l+'/storage.go','return Entity{\n\t\tclass:','return &Entity{\n\t\tclass:','all'))
r('v02-pointer-aggregate',*[(C+l+'/'+f,'return Aggregate{\n','return &Aggregate{\n','all') for l,fs in {'word':['repository.go'],'phrase':['repository.go'],'character':['repository.go'],'detail':['repository.go'],'fact':['repository.go','aggregate.go'],'remark':['repository.go','aggregate.go']}.items() for f in fs])
r('v03-pointer-element',*[(C+l+'/'+f,'return Element{\n','return &Element{\n','all') for l in ['word','phrase','character'] for f in ['element.go','elements.go']])
r('v04-nil-on-error',*[(C+l+'/storage.go','return Entity{}, err','return nil, err','all') for l in ['word','phrase','character','detail','fact','remark','story']])

r('v05-aggregate-method',(C+'fact/repository.go','''return Aggregate{
		fact:            fact,
		factStorage:     r.factStorage,
		storyRepository: r.storyRepository,
	}, nil''','return r.aggregate(fact), nil','all'),
 (C+'fact/repository.go','''return Aggregate{
		fact:            nextFact,
		factStorage:     r.factStorage,
		storyRepository: r.storyRepository,
	}, nil''','return r.aggregate(nextFact), nil','all'),
 (C+'fact/repository.go','''return Aggregate{
		fact:            firstFact,
		factStorage:     r.factStorage,
		storyRepository: r.storyRepository,
	}, nil''','return r.aggregate(firstFact), nil','all'),
 (C+'fact/repository.go','''func (r *Repository) FetchByRemark''','''func (r *Repository) aggregate(fact abstractFact.Entity) abstractFact.Aggregate {
	return Aggregate{fact, r.factStorage, r.storyRepository}
}

func (r *Repository) FetchByRemark'''))
r('v06-create-story-fact',(C+'fact/repository.go','''	class, err := r.classRepository.ProvideEntity()
	if err != nil {
		return nil, err
	}

	classIdentifier, err := class.CreateFact()
	if err != nil {
		return nil, err
	}

	nextFact, err := r.factStorage.CreateEntity(classIdentifier)
	if err != nil {
		return nil, err
	}

	err = nextFact.PointToStory(story.GetFact())
	if err != nil {
		return nil, err
	}

	err = firstRemark.PointToFact(nextFact.GetRemark())
	if err != nil {
		return nil, err
	}

	err = nextFact.PointToRemark(firstRemark.GetFact())
	if err != nil {
		return nil, err
	}
''','''	nextFact, err := r.createFact(story)
	if err == nil {
		err = join(nextFact, firstRemark)
	}
	if err != nil {
		return nil, err
	}
'''),(C+'fact/repository.go','''func (r *Repository) FetchByRemark''','''func (r *Repository) createFact(story abstractStory.Entity) (fact abstractFact.Entity, err error) {
	class, err := r.classRepository.ProvideEntity()
	if err != nil {
		return
	}

	identifier, err := class.CreateFact()
	if err != nil {
		return
	}

	if fact, err = r.factStorage.CreateEntity(identifier); err != nil {
		return
	}

	err = fact.PointToStory(story.GetFact())
	return
}

func join(fact abstractFact.Entity, remark abstractFact.Remark) error {
	if err := remark.PointToFact(fact.GetRemark()); err != nil {
		return err
	}

	return fact.PointToRemark(remark.GetFact())
}

func (r *Repository) FetchByRemark'''))
r('v07-fact-moves',(C+'fact/aggregate.go','@func (a Aggregate) ToNextStory','''func (a Aggregate) ToNextStory() (abstractFact.Aggregate, error) {

	return a.move(func(story abstractStory.Entity) (abstractStory.Entity, error) {
		identifier, err := story.GetTargetPosition()
		if err != nil {
			return nil, err
		}
		return a.storyRepository.FetchByPosition(identifier)
	})
}

func (a Aggregate) move(to func(abstractStory.Entity) (abstractStory.Entity, error)) (abstractFact.Aggregate, error) {

	storyIdentifier, err := a.fact.GetTargetStory()
	if err != nil {
		return nil, err
	}

	story, err := a.storyRepository.FetchByFact(storyIdentifier)
	if err != nil {
		return nil, err
	}

	if to != nil {
		story, err = to(story)
		if err != nil {
			return nil, err
		}
	}

	factIdentifier, err := story.GetTargetFact()
	if err != nil {
		return nil, err
	}

	fact, err := a.factStorage.ReadEntityByStory(factIdentifier)
	if err != nil {
		return nil, err
	}

	a.fact = fact
	return a, nil
}'''),(C+'fact/aggregate.go','@func (a Aggregate) ToParentStory','''func (a Aggregate) ToParentStory() (abstractFact.Aggregate, error) {

	return a.move(func(story abstractStory.Entity) (abstractStory.Entity, error) {
		identifier, err := story.GetTargetTree()
		if err != nil {
			return nil, err
		}
		return a.storyRepository.FetchByTree(identifier)
	})
}'''),(C+'fact/aggregate.go','@func (a Aggregate) ToFirstFact','''func (a Aggregate) ToFirstFact() (abstractFact.Aggregate, error) {
	return a.move(nil)
}'''))
r('v08-remark-moves',(C+'remark/aggregate.go','@func (a Aggregate) GetNextFact','''func (a Aggregate) GetNextFact() (abstractRemark.Aggregate, error) {
	return a.move(abstractFact.Aggregate.ToNextFact)
}

type step func(abstractFact.Aggregate) (abstractFact.Aggregate, error)

func (a Aggregate) move(to step) (abstractRemark.Aggregate, error) {

	factIdentifier, err := a.remark.GetTargetFact()
	if err != nil {
		return nil, err
	}

	fact, err := a.factRepository.FetchByRemark(factIdentifier)
	if err != nil {
		return nil, err
	}

	fact, err = to(fact)
	if err != nil {
		return nil, err
	}

	remarkFact, err := fact.GetFirstRemark()
	if err != nil {
		return nil, err
	}

	moved := a
	moved.remark, err = a.remarkStorage.ReadEntityByFact(remarkFact)
	if err != nil {
		return nil, err
	}

	return moved, nil
}'''),(C+'remark/aggregate.go','@func (a Aggregate) GetFirstFact','''func (a Aggregate) GetFirstFact() (abstractRemark.Aggregate, error) {
	return a.move(abstractFact.Aggregate.ToFirstFact)
}'''),(C+'remark/aggregate.go','@func (a Aggregate) GetNextStory','''func (a Aggregate) GetNextStory() (abstractRemark.Aggregate, error) {
	return a.move(func(fact abstractFact.Aggregate) (abstractFact.Aggregate, error) { return fact.ToNextStory() })
}'''))
r('v09-node-list',(C+'word/entity.go','type Entity struct {','''type nodes []uint

func (n nodes) single(what string, at uint) (uint, error) {
	if len(n) == 1 {
		return n[0], nil
	}
	return 0, fmt.Errorf("word has wrong number of %s: %d at %d", what, len(n), at)
}

func (n nodes) none() bool { return len(n) == 0 }

type Entity struct {'''),(C+'word/entity.go','@func (e Entity) GetTargetCharacter','''func (e Entity) GetTargetCharacter() (uint, error) {
	targets, err := e.storage.ReadTargets(e.character)
	if err != nil {
		return 0, err
	}
	return nodes(targets).single("target characters", e.character)
}'''),(C+'word/entity.go','@func (e Entity) GetSourceWord','''func (e Entity) GetSourceWord() (uint, error) {
	sources, err := e.storage.ReadSources(e.word)
	if err != nil {
		return 0, err
	}
	return nodes(sources).single("source words", e.word)
}'''))

r('v10-bits-shift-loop',(C+'character/paths.go','@func (p *paths) collect','''func (p *paths) collect(integer rune) (path, error) {
	if integer < 0 {
		return path{}, fmt.Errorf("no bits in cluster: %d", integer)
	}

	bitValues := path{integer&1 == 1}
	for rest := integer >> 1; rest > 0; rest >>= 1 {
		bitValues = append(bitValues, rest&1 == 1)
	}

	return bitValues.reverse(), nil
}'''))
r('v11-detail-contains',(C+'detail/factory.go','''		for _, propertySourceDetail := range propertySourceDetails {
			if propertySourceDetail == objectTargetDetail {
				commonDetailIdentifiers = append(commonDetailIdentifiers, propertySourceDetail)
			}
		}
''','''		if contains(propertySourceDetails, objectTargetDetail) {
			commonDetailIdentifiers = append(commonDetailIdentifiers, objectTargetDetail)
		}
'''),(C+'detail/factory.go','func (f *Factory) ProvideEntity(','''func contains(list []uint, wanted uint) bool {
	for i := range list {
		if list[i] == wanted {
			return true
		}
	}
	return false
}

func (f *Factory) ProvideEntity('''))
r('v12-detail-sorted',(C+'detail/factory.go','''	for _, objectTargetDetail := range objectTargetDetails {
		for _, propertySourceDetail := range propertySourceDetails {
			if propertySourceDetail == objectTargetDetail {
				commonDetailIdentifiers = append(commonDetailIdentifiers, propertySourceDetail)
			}
		}
	}
''','''	sort.Slice(objectTargetDetails, func(i, j int) bool { return objectTargetDetails[i] < objectTargetDetails[j] })
	sort.Slice(propertySourceDetails, func(i, j int) bool { return propertySourceDetails[i] < propertySourceDetails[j] })
	for i, j := 0, 0; i < len(objectTargetDetails) && j < len(propertySourceDetails); {
		switch {
		case objectTargetDetails[i] < propertySourceDetails[j]:
			i++
		case objectTargetDetails[i] > propertySourceDetails[j]:
			j++
		default:
			commonDetailIdentifiers = append(commonDetailIdentifiers, objectTargetDetails[i])
			i++
			j++
		}
	}
'''),(C+'detail/factory.go','	"fmt"\n','	"fmt"\n	"sort"\n'))
r('v13-detail-smaller-first',(C+'detail/factory.go','''	for _, objectTargetDetail := range objectTargetDetails {
		for _, propertySourceDetail := range propertySourceDetails {
			if propertySourceDetail == objectTargetDetail {
				commonDetailIdentifiers = append(commonDetailIdentifiers, propertySourceDetail)
			}
		}
	}
''','''	shorter, longer := objectTargetDetails, propertySourceDetails
	if len(shorter) > len(longer) {
		shorter, longer = longer, shorter
	}
	known := make(map[uint]bool, len(shorter))
	for _, identifier := range shorter {
		known[identifier] = true
	}
	for _, identifier := range longer {
		if known[identifier] {
			commonDetailIdentifiers = append(commonDetailIdentifiers, identifier)
		}
	}
'''))
r('v14-bit-pair-struct',(C+'bit/layer.go','''			if classIdentifiers[0] < classIdentifiers[1] {
				zeroClassIdentifier = classIdentifiers[0]
				oneClassIdentifier = classIdentifiers[1]
			} else {
				zeroClassIdentifier = classIdentifiers[1]
				oneClassIdentifier = classIdentifiers[0]
			}

			// zero

			_,''','''			if classIdentifiers[0] > classIdentifiers[1] {
				classIdentifiers[0], classIdentifiers[1] = classIdentifiers[1], classIdentifiers[0]
			}
			zeroClassIdentifier, oneClassIdentifier = classIdentifiers[0], classIdentifiers[1]

			// zero

			_,'''))
r('v15-bit-build',(C+'bit/layer.go','''			// zero

			_, zeroCharacterIdentifier, err := l.storage.GetReference(zeroClassIdentifier)
			if err != nil {
				return Entity{}, Entity{}, err
			}

			l.zeroEntity = Entity{
				value:     false,
				class:     zeroClassIdentifier,
				character: zeroCharacterIdentifier,
				storage:   l.storage,
			}

			// one

			_, oneCharacterIdentifier, err := l.storage.GetReference(oneClassIdentifier)
			if err != nil {
				return Entity{}, Entity{}, err
			}

			l.oneEntity = Entity{
				value:     true,
				class:     oneClassIdentifier,
				character: oneCharacterIdentifier,
				storage:   l.storage,
			}
''','''			for _, b := range []struct {
				entity *Entity
				value  bool
				class  uint
			}{{&l.zeroEntity, false, zeroClassIdentifier}, {&l.oneEntity, true, oneClassIdentifier}} {
				_, character, err := l.storage.GetReference(b.class)
				if err != nil {
					return Entity{}, Entity{}, err
				}

				*b.entity = newEntity(b.value, b.class, character, l.storage)
			}
'''))
r('v16-fetch-switch',(C+'bit/repository.go','''	if identifier == zeroEntity.GetCharacter() {
		return zeroEntity, nil
	}

	if identifier == oneEntity.GetCharacter() {
		return oneEntity, nil
	}

	return Entity{}, fmt.Errorf("wrong identifier in bit layer %d", identifier)''','''	for _, entity := range []Entity{zeroEntity, oneEntity} {
		if entity.GetCharacter() == identifier {
			return entity, nil
		}
	}

	return nil, fmt.Errorf("wrong identifier in bit layer %d", identifier)'''))
r('v17-next-find',(C+'word/element.go','''	targetWords := make([]abstractWord.Entity, 0, len(targetWordIdentifiers))
	for _, targetWordIdentifier := range targetWordIdentifiers {

		targetWord, err := e.wordStorage.ReadEntityByWord(targetWordIdentifier)
		if err != nil {
			return nil, err
		}

		targetWords = append(targetWords, targetWord)
	}

	// use existing
	for _, targetWord := range targetWords {
		targetCharacterIdentifier, err := targetWord.GetTargetCharacter()
		if err != nil {
			return nil, err
		}

		targetCharacter, err := e.characterRepository.Fetch(targetCharacterIdentifier)
		if err != nil {
			return nil, err
		}

		targetValue, err := targetCharacter.Extract()
		if err != nil {
			return nil, err
		}

		if characterValue == targetValue {
			return Element{
				word:                targetWord,
				wordStorage:         e.wordStorage,
				wordFactory:         e.wordFactory,
				classRepository:     e.classRepository,
				characterRepository: e.characterRepository,
			}, nil
		}
	}
''','''	// use existing
	next := e
	for i := 0; i < len(targetWordIdentifiers); i++ {
		next.word, err = e.wordStorage.ReadEntityByWord(targetWordIdentifiers[i])
		if err != nil {
			return nil, err
		}

		value, err := next.ExtractCharacterValue()
		if err != nil {
			return nil, err
		}

		if value == characterValue {
			return next, nil
		}
	}
'''))
r('v18-word-provide-reduce',(C+'word/repository.go','''	wordElement, err := r.wordElements.ProvideFirstElement(path[0])
	if err != nil {
		return nil, err
	}

	for _, characterValue := range path[1:] {

		wordElement, err = wordElement.ProvideNextElement(characterValue)
		if err != nil {
			return nil, err
		}
	}
''','''	provide := r.wordElements.ProvideFirstElement
	var wordElement abstractWord.Element
	for _, characterValue := range path {
		wordElement, err = provide(characterValue)
		if err != nil {
			return nil, err
		}
		provide = wordElement.ProvideNextElement
	}
'''))
r('v19-while-path',(C+'word/repository.go','''	for _, characterValue := range path[1:] {

		wordElement, err = wordElement.ProvideNextElement(characterValue)
		if err != nil {
			return nil, err
		}
	}
''','''	for rest := path[1:]; len(rest) > 0; rest = rest[1:] {
		if wordElement, err = wordElement.ProvideNextElement(rest[0]); err != nil {
			return nil, err
		}
	}
'''))
r('v20-tail-single-link',(C+'word/element.go','''	err = e.word.PointToWord(newWord.GetWord())
	if err != nil {
		return nil, err
	}

''',''))
r('v21-extract-visitor',(C+'word/aggregate.go','@func (a Aggregate) Extract','''func (a Aggregate) Extract() (string, error) {

	var characters path
	err := a.eachBackwards(func(character rune) {
		characters = append(characters, character)
	})
	if err != nil {
		return "", err
	}

	return characters.reverse().toString(), nil
}

func (a Aggregate) eachBackwards(visit func(rune)) error {
	element := a.wordElements.CreateLastElement(a.word)
	for more := true; more; {
		character, err := element.ExtractCharacterValue()
		if err != nil {
			return err
		}
		visit(character)

		if more, err = element.HasPreviousElement(); err != nil {
			return err
		}
		if more {
			if element, err = element.GetPreviousElement(); err != nil {
				return err
			}
		}
	}
	return nil
}'''))
r('v22-extract-recursive',(C+'word/aggregate.go','@func (a Aggregate) Extract','''func (a Aggregate) Extract() (string, error) {
	characters, err := a.collect(a.wordElements.CreateLastElement(a.word))
	if err != nil {
		return "", err
	}

	return characters.toString(), nil
}

func (a Aggregate) collect(element abstractWord.Element) (path, error) {
	character, err := element.ExtractCharacterValue()
	if err != nil {
		return nil, err
	}

	hasPrevious, err := element.HasPreviousElement()
	if err != nil {
		return nil, err
	}

	if !hasPrevious {
		return a.paths.create(character), nil
	}

	previous, err := element.GetPreviousElement()
	if err != nil {
		return nil, err
	}

	front, err := a.collect(previous)
	if err != nil {
		return nil, err
	}

	return append(front, character), nil
}'''))
r('v23-output-labeled',('output.go','@func (o *Output) GetStory','''func (o *Output) GetStory(remark Remark) (string, error) {
	var (
		text strings.Builder
		err  error
	)

	current, err := remark.GetFirstFact()
	if err != nil {
		return "", err
	}

walk:
	for {
		object, property, err := current.GetObjectAndProperty()
		if err != nil {
			return "", err
		}
		for _, part := range [...]string{object, property} {
			text.WriteString(part)
			text.WriteByte(' ')
		}

		switch more, err := current.HasNextRemark(); {
		case err != nil:
			return "", err
		case !more:
			break walk
		}

		if current, err = current.GetNextRemark(); err != nil {
			return "", err
		}
	}

	return text.String(), nil
}'''),('output.go','import "bytes"','import "strings"'))
r('v24-graph-lazy',('graph.go','''	aggregate, err := g.remarkRepository.GetRemark(remarkIdentifier)
	if err != nil {
		return Remark{}, err
	}

	return Remark{Aggregate: aggregate}, nil''','''	return wrap(g.remarkRepository.GetRemark(remarkIdentifier))'''),('graph.go','''	aggregate, err := g.remarkRepository.CreateFirstUserRemark(object, property)
	if err != nil {
		return Remark{}, err
	}

	return Remark{Aggregate: aggregate}, nil
}
''','''	return wrap(g.remarkRepository.CreateFirstUserRemark(object, property))
}

func wrap(aggregate abstractRemark.Aggregate, err error) (remark Remark, _ error) {
	if err == nil {
		remark.Aggregate = aggregate
	}

	return remark, err
}
'''),('graph.go','''	"github.com/mem-memov/semnet/internal/abstract"
''','''	"github.com/mem-memov/semnet/internal/abstract"
	abstractRemark "github.com/mem-memov/semnet/internal/abstract/remark"
'''))
r('v25-class-chain-loop',(C+'class/repository.go','''			result, err := r.storage.Create()
			if err != nil {
				return Entity{}, err
			}

			if result != bitIdentifier {''','''			result, err := r.create()
			if err != nil {
				return Entity{}, err
			}

			if result != bitIdentifier {'''),(C+'class/repository.go','func (r *Repository) ProvideEntity','''func (r *Repository) create() (uint, error) {
	return r.storage.Create()
}

func (r *Repository) ProvideEntity'''))
r('v26-siblings-last',(C+'fact/repository.go','''	if len(siblingTrees) != 0 {

		siblingStory, err := r.storyRepository.FetchByTree(siblingTrees[0])
		if err != nil {
			return nil, err
		}

		for {
			hasTargetPosition, err := siblingStory.HasTargetPosition()
			if err != nil {
				return nil, err
			}

			if !hasTargetPosition {
				break
			}

			targetPosition, err := siblingStory.GetTargetPosition()
			if err != nil {
				return nil, err
			}

			siblingStory, err = r.storyRepository.FetchByPosition(targetPosition)
			if err != nil {
				return nil, err
			}
		}

		err = siblingStory.PointToPosition(childStory.GetPosition())
		if err != nil {
			return nil, err
		}

	}
''','''	for i, siblingTree := range siblingTrees {
		if i > 0 {
			break
		}

		err = r.append(siblingTree, childStory.GetPosition())
		if err != nil {
			return nil, err
		}
	}
'''),(C+'fact/repository.go','func (r *Repository) FetchByRemark','''func (r *Repository) append(tree uint, position uint) error {

	story, err := r.storyRepository.FetchByTree(tree)
	if err != nil {
		return err
	}

	hasNext, err := story.HasTargetPosition()
	for ; err == nil && hasNext; hasNext, err = story.HasTargetPosition() {
		next, err := story.GetTargetPosition()
		if err != nil {
			return err
		}

		story, err = r.storyRepository.FetchByPosition(next)
		if err != nil {
			return err
		}
	}
	if err != nil {
		return err
	}

	return story.PointToPosition(position)
}

func (r *Repository) FetchByRemark'''))
r('v27-reorder-reads',(C+'fact/repository.go','''	siblingTrees, err := story.GetSourceTrees()
	if err != nil {
		return nil, err
	}

	childStory, err := r.storyRepository.CreateStory()
	if err != nil {
		return nil, err
	}
''','''	childStory, err := r.storyRepository.CreateStory()
	if err != nil {
		return nil, err
	}

	siblingTrees, err := story.GetSourceTrees()
	if err != nil {
		return nil, err
	}
'''))
r('v28-remark-detail-first',(C+'remark/repository.go','''	class, err := r.classRepository.ProvideEntity()
	if err != nil {
		return nil, err
	}

	classIdentifier, err := class.CreateRemark()
	if err != nil {
		return nil, err
	}

	remark, err := r.remarkStorage.CreateEntity(classIdentifier)
	if err != nil {
		return nil, err
	}

	// detail

	detail, err := r.detailRepository.Provide(object, property)
	if err != nil {
		return nil, err
	}
''','''	detail, err := r.detailRepository.Provide(object, property)
	if err != nil {
		return nil, err
	}

	class, err := r.classRepository.ProvideEntity()
	if err != nil {
		return nil, err
	}

	classIdentifier, err := class.CreateRemark()
	if err != nil {
		return nil, err
	}

	remark, err := r.remarkStorage.CreateEntity(classIdentifier)
	if err != nil {
		return nil, err
	}
'''))
