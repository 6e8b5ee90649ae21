import re
C='internal/concrete/'
R=[]
def r(id,*edits): R.append(dict(id=id,edits=list(edits)))
src=lambda f: open('/repo/'+f).read()
FR=C+'fact/repository.go'; WS=C+'word/storage.go'; WE=C+'word/entity.go'; WA=C+'word/aggregate.go'; WF=C+'word/factory.go'; WR=C+'word/repository.go'
CE=C+'character/element.go'; CP=C+'character/paths.go'; PP=C+'phrase/paths.go'; PA=C+'phrase/aggregate.go'; RR=C+'remark/repository.go'; RA=C+'remark/aggregate.go'
BL=C+'bit/layer.go'; CR=C+'class/repository.go'; FA=C+'fact/aggregate.go'; SR=C+'story/repository.go'; DF=C+'detail/factory.go'
r('t01-format-int',(CP,'bitNames := fmt.Sprintf("%b", integer)','bitNames := strconv.FormatInt(int64(integer), 2)'),(CP,'	"fmt"\n','	"fmt"\n	"strconv"\n'))
r('t02-collect-append',(CP,'''	bitValues := path(make([]bool, len(bitNames)))

	for i, bitName := range bitNames {''','''	bitValues := make(path, 0, len(bitNames))

	for _, bitName := range bitNames {'''),(CP,"bitValues[i] = bitName == '1'","bitValues = append(bitValues, bitName == '1')"))
r('t03-merge-loops',(CE,'''	targetCharacters := make([]abstractCharacter.Entity, 0, len(targetCharacterIdentifiers))
''',''),(CE,'''		targetCharacters = append(targetCharacters, targetCharacter)
	}

	// use existing
	for _, targetCharacter := range targetCharacters {
''',''))
# a chain of creations as a loop over an array
r('t04-create-nodes',(WS,'@func (s *Storage) CreateEntity','''func (s *Storage) CreateEntity(class uint) (abstractWord.Entity, error) {

	nodes := [4]uint{class}
	for i := 1; i < len(nodes); i++ {
		node, err := s.storage.Create()
		if err != nil {
			return nil, err
		}
		nodes[i] = node
	}

	for i := 0; i < len(nodes)-1; i++ {
		if err := s.storage.SetReference(nodes[i], nodes[i+1]); err != nil {
			return nil, err
		}
	}

	return s.entity(nodes), nil
}

func (s *Storage) entity(nodes [4]uint) Entity {
	return Entity{
		class:     nodes[0],
		character: nodes[1],
		word:      nodes[2],
		phrase:    nodes[3],
		storage:   s.storage,
	}
}'''))
r('t05-read-via-other',(WS,'@func (s *Storage) ReadEntityByPhrase','''func (s *Storage) ReadEntityByPhrase(phrase uint) (abstractWord.Entity, error) {

	word, _, err := s.storage.GetReference(phrase)
	if err != nil {
		return nil, err
	}

	return s.ReadEntityByWord(word)
}'''))
r('t06-single-fn',(WE,'@func (e Entity) GetSourceCharacter','''func (e Entity) GetSourceCharacter() (uint, error) {
	return e.only(e.storage.ReadSources, e.character, "source characters")
}

func (e Entity) only(read func(uint) ([]uint, error), at uint, what string) (uint, error) {
	found, err := read(at)
	if err != nil {
		return 0, err
	}
	if n := len(found); n != 1 {
		return 0, fmt.Errorf("word has wrong number of %s: %d at %d", what, n, at)
	}
	return found[0], nil
}'''),(WE,'@func (e Entity) GetTargetPhrase','''func (e Entity) GetTargetPhrase() (uint, error) {
	return e.only(e.storage.ReadTargets, e.phrase, "target phrases")
}'''),(WE,'@func (e Entity) GetTargetCharacter','''func (e Entity) GetTargetCharacter() (uint, error) {
	return e.only(e.storage.ReadTargets, e.character, "target characters")
}'''),(WE,'@func (e Entity) GetSourceWord','''func (e Entity) GetSourceWord() (uint, error) {
	return e.only(e.storage.ReadSources, e.word, "source words")
}'''))
r('t07-has-if',(WE,'@func (e Entity) HasTargetPhrase','''func (e Entity) HasTargetPhrase() (bool, error) {
	targets, err := e.storage.ReadTargets(e.phrase)
	if err != nil {
		return false, err
	}
	if len(targets) > 1 {
		return false, fmt.Errorf("word has wrong number of target phrases: %d at %d", len(targets), e.character)
	}
	return len(targets) == 1, nil
}'''))
r('t08-extract-do',(WA,'@func (a Aggregate) Extract','''func (a Aggregate) Extract() (string, error) {

	var path path
	wordElement := a.wordElements.CreateLastElement(a.word)

	for {
		characterValue, err := wordElement.ExtractCharacterValue()
		if err != nil {
			return "", err
		}

		path = append(path, characterValue)

		hasPreviousElement, err := wordElement.HasPreviousElement()
		if err != nil {
			return "", err
		}

		if !hasPreviousElement {
			return path.reverse().toString(), nil
		}

		wordElement, err = wordElement.GetPreviousElement()
		if err != nil {
			return "", err
		}
	}
}'''))
r('t09-extract-closure',(WA,'@func (a Aggregate) Extract','''func (a Aggregate) Extract() (string, error) {

	wordElement := a.wordElements.CreateLastElement(a.word)

	path := make(path, 0, 8)
	collect := func() error {
		characterValue, err := wordElement.ExtractCharacterValue()
		if err != nil {
			return err
		}
		path = append(path, characterValue)
		return nil
	}

	if err := collect(); err != nil {
		return "", err
	}

	for {
		hasPreviousElement, err := wordElement.HasPreviousElement()
		if err != nil {
			return "", err
		}

		if !hasPreviousElement {
			break
		}

		wordElement, err = wordElement.GetPreviousElement()
		if err != nil {
			return "", err
		}

		if err := collect(); err != nil {
			return "", err
		}
	}

	return path.reverse().toString(), nil
}'''))
r('t10-extract-flag',(WA,'@func (a Aggregate) Extract','''func (a Aggregate) Extract() (string, error) {

	wordElement := a.wordElements.CreateLastElement(a.word)

	characterValue, err := wordElement.ExtractCharacterValue()
	if err != nil {
		return "", err
	}

	path := a.paths.create(characterValue)

	hasPreviousElement, err := wordElement.HasPreviousElement()
	if err != nil {
		return "", err
	}

	for hasPreviousElement {
		wordElement, err = wordElement.GetPreviousElement()
		if err != nil {
			return "", err
		}

		characterValue, err = wordElement.ExtractCharacterValue()
		if err != nil {
			return "", err
		}

		path = append(path, characterValue)

		hasPreviousElement, err = wordElement.HasPreviousElement()
		if err != nil {
			return "", err
		}
	}

	return path.reverse().toString(), nil
}'''))
r('t11-head-invert',(WF,'@func (f *Factory) ProvideHeadEntity','''func (f *Factory) ProvideHeadEntity(
	classEntity abstractClass.Entity,
	characterAggregate abstractCharacter.Aggregate,
) (abstractWord.Entity, error) {

	hasTargetWord, err := characterAggregate.HasTargetWord()
	if err != nil {
		return nil, err
	}

	if hasTargetWord {
		character, err := characterAggregate.GetTargetWord()
		if err != nil {
			return nil, err
		}

		return f.wordStorage.ReadEntityByCharacter(character)
	}

	wordEntity, err := f.createEntity(classEntity, characterAggregate)
	if err != nil {
		return nil, err
	}

	if err := characterAggregate.PointToWord(wordEntity.GetCharacter()); err != nil {
		return nil, err
	}

	return wordEntity, nil
}

func (f *Factory) createEntity(
	classEntity abstractClass.Entity,
	characterAggregate abstractCharacter.Aggregate,
) (abstractWord.Entity, error) {

	class, err := classEntity.CreateWord()
	if err != nil {
		return nil, err
	}

	wordEntity, err := f.wordStorage.CreateEntity(class)
	if err != nil {
		return nil, err
	}

	if err := wordEntity.PointToCharacter(characterAggregate.GetWord()); err != nil {
		return nil, err
	}

	return wordEntity, nil
}'''),(WF,'@func (f *Factory) CreateTailEntity','''func (f *Factory) CreateTailEntity(
	classEntity abstractClass.Entity,
	characterAggregate abstractCharacter.Aggregate,
	previousWordEntity abstractWord.Entity,
) (abstractWord.Entity, error) {

	newWordEntity, err := f.createEntity(classEntity, characterAggregate)
	if err != nil {
		return nil, err
	}

	if err := previousWordEntity.PointToWord(newWordEntity.GetWord()); err != nil {
		return nil, err
	}

	return newWordEntity, nil
}'''))
r('t12-provide-for',(WR,'''	for _, characterValue := range path[1:] {

		wordElement, err = wordElement.ProvideNextElement(characterValue)
		if err != nil {
			return nil, err
		}
	}
''','''	for i := 1; i < len(path); i++ {
		if wordElement, err = wordElement.ProvideNextElement(path[i]); err != nil {
			return nil, err
		}
	}
'''))
r('t13-provide-aggregate-helper',(WR,'''	return Aggregate{
		word:         wordElement.GetEntity(),
		wordElements: r.wordElements,
		paths:        r.paths,
	}, nil
''','''	return r.aggregate(wordElement.GetEntity()), nil
'''),(WR,'''	return Aggregate{
		word:         word,
		wordElements: r.wordElements,
		paths:        r.paths,
	}, nil
''','''	return r.aggregate(word), nil
'''),(WR,'func (r *Repository) Fetch','''func (r *Repository) aggregate(word abstractWord.Entity) Aggregate {
	return Aggregate{word: word, wordElements: r.wordElements, paths: r.paths}
}

func (r *Repository) Fetch'''))
r('t14-output-builder',('output.go','import "bytes"','import "strings"'),('output.go','var buffer bytes.Buffer','var buffer strings.Builder'),('output.go','''		buffer.WriteString(object)
		buffer.WriteString(" ")
		buffer.WriteString(property)
		buffer.WriteString(" ")
''','''		for _, text := range []string{object, " ", property, " "} {
			buffer.WriteString(text)
		}
'''))
r('t15-output-recursive',('output.go','@func (o *Output) GetStory','''func (o *Output) GetStory(remark Remark) (string, error) {

	factRemark, err := remark.GetFirstFact()
	if err != nil {
		return "", err
	}

	parts := []string{}

	for {
		object, property, err := factRemark.GetObjectAndProperty()
		if err != nil {
			return "", err
		}

		parts = append(parts, object+" "+property+" ")

		hasNextRemark, err := factRemark.HasNextRemark()
		if err != nil {
			return "", err
		}

		if !hasNextRemark {
			break
		}

		factRemark, err = factRemark.GetNextRemark()
		if err != nil {
			return "", err
		}
	}

	return strings.Join(parts, ""), nil
}'''),('output.go','import "bytes"','import "strings"'))
r('t16-output-fprintf',('output.go','''		buffer.WriteString(object)
		buffer.WriteString(" ")
		buffer.WriteString(property)
		buffer.WriteString(" ")
''','''		fmt.Fprintf(&buffer, "%s %s ", object, property)
'''),('output.go','import "bytes"','import (\n	"bytes"\n	"fmt"\n)'))
r('t17-output-sprintf',('output.go','''		buffer.WriteString(object)
		buffer.WriteString(" ")
		buffer.WriteString(property)
		buffer.WriteString(" ")
''','''		buffer.WriteString(fmt.Sprintf("%s %s ", object, property))
'''),('output.go','import "bytes"','import (\n	"bytes"\n	"fmt"\n)'))
r('t18-create-fact-helper',(FR,'''	class, err := r.classRepository.ProvideEntity()
	if err != nil {
		return nil, err
	}

	classIdentifier, err := class.CreateFact()
	if err != nil {
		return nil, err
	}

	fact, err := r.factStorage.CreateEntity(classIdentifier)
	if err != nil {
		return nil, err
	}
''','''	fact, err := r.createFact()
	if err != nil {
		return nil, err
	}
'''),(FR,'''	class, err := r.classRepository.ProvideEntity()
	if err != nil {
		return nil, err
	}

	classIdentifier, err := class.CreateFact()
	if err != nil {
		return nil, err
	}

	nextFact, err := r.factStorage.CreateEntity(classIdentifier)
	if err != nil {
		return nil, err
	}
''','''	nextFact, err := r.createFact()
	if err != nil {
		return nil, err
	}
'''),(FR,'func (r *Repository) FetchByRemark','''func (r *Repository) createFact() (abstractFact.Entity, error) {
	class, err := r.classRepository.ProvideEntity()
	if err != nil {
		return nil, err
	}

	identifier, err := class.CreateFact()
	if err != nil {
		return nil, err
	}

	return r.factStorage.CreateEntity(identifier)
}

func (r *Repository) FetchByRemark'''))
r('t19-story-of-helper',(FR,'''	fact, err := r.factStorage.ReadEntityByRemark(remarkIdentifier)
	if err != nil {
		return nil, err
	}

	storyIdentifier, err := fact.GetTargetStory()
	if err != nil {
		return nil, err
	}

	story, err := r.storyRepository.FetchByFact(storyIdentifier)
	if err != nil {
		return nil, err
	}
''','''	fact, story, err := r.locate(remarkIdentifier)
	if err != nil {
		return nil, err
	}
''',0),(FR,'''	fact, err := r.factStorage.ReadEntityByRemark(remarkIdentifier)
	if err != nil {
		return nil, err
	}

	storyIdentifier, err := fact.GetTargetStory()
	if err != nil {
		return nil, err
	}

	story, err := r.storyRepository.FetchByFact(storyIdentifier)
	if err != nil {
		return nil, err
	}
''','''	_, story, err := r.locate(remarkIdentifier)
	if err != nil {
		return nil, err
	}
''',0),(FR,'func (r *Repository) FetchByRemark','''func (r *Repository) locate(remark uint) (fact abstractFact.Entity, story abstractStory.Entity, err error) {
	if fact, err = r.factStorage.ReadEntityByRemark(remark); err != nil {
		return
	}
	storyIdentifier, err := fact.GetTargetStory()
	if err != nil {
		return
	}
	story, err = r.storyRepository.FetchByFact(storyIdentifier)
	return
}

func (r *Repository) FetchByRemark'''))
r('t20-sibling-early',(FR,'''	if len(siblingTrees) != 0 {

		siblingStory, err''','''	if len(siblingTrees) == 0 {
		return Aggregate{
			fact:            firstFact,
			factStorage:     r.factStorage,
			storyRepository: r.storyRepository,
		}, nil
	}

	{
		siblingStory, err'''))
r('t21-steps',(FR,'''	err = firstFact.PointToStory(childStory.GetFact())
	if err != nil {
		return nil, err
	}

	err = childStory.PointToFact(firstFact.GetStory())
	if err != nil {
		return nil, err
	}

	err = firstRemark.PointToFact(firstFact.GetRemark())
	if err != nil {
		return nil, err
	}

	err = firstFact.PointToRemark(firstRemark.GetFact())
	if err != nil {
		return nil, err
	}

	err = childStory.PointToTree(story.GetTree())
	if err != nil {
		return nil, err
	}
''','''	steps := []func() error{
		func() error { return firstFact.PointToStory(childStory.GetFact()) },
		func() error { return childStory.PointToFact(firstFact.GetStory()) },
		func() error { return firstRemark.PointToFact(firstFact.GetRemark()) },
		func() error { return firstFact.PointToRemark(firstRemark.GetFact()) },
		func() error { return childStory.PointToTree(story.GetTree()) },
	}
	for _, step := range steps {
		if err := step(); err != nil {
			return nil, err
		}
	}
'''))
r('t22-bit-value-table',(BL,'''			if classIdentifiers[0] < classIdentifiers[1] {
				zeroClassIdentifier = classIdentifiers[0]
				oneClassIdentifier = classIdentifiers[1]
			} else {
				zeroClassIdentifier = classIdentifiers[1]
				oneClassIdentifier = classIdentifiers[0]
			}
''','''			zeroClassIdentifier, oneClassIdentifier = classIdentifiers[0], classIdentifiers[1]
			if zeroClassIdentifier > oneClassIdentifier {
				zeroClassIdentifier, oneClassIdentifier = oneClassIdentifier, zeroClassIdentifier
			}
''','all'))
r('t23-bit-early-return',(BL,'	if !l.isInitialized {\n		classEntity, err','	if l.isInitialized {\n		return l.zeroEntity, l.oneEntity, nil\n	}\n\n	{\n		classEntity, err'))
r('t24-class-steps',(CR,src(CR)[src(CR).index('			result, err := r.storage.Create()'):src(CR).index('		r.entity = newEntity')],'''			identifiers := []uint{
				bitIdentifier,
				characterIdentifier,
				wordIdentifier,
				phraseIdentifier,
				detailIdentifier,
				remarkIdentifier,
				factIdentifier,
				storyIdentifier,
			}

			for i, identifier := range identifiers {
				result, err := r.storage.Create()
				if err != nil {
					return Entity{}, err
				}

				if result != identifier {
					return Entity{}, fmt.Errorf("wrong class node %d instead of %d", result, identifier)
				}

				if i > 0 {
					err = r.storage.SetReference(identifiers[i-1], identifier)
					if err != nil {
						return Entity{}, err
					}
				}
			}
		}

'''))
r('t25-fact-story-helper',(FA,'''	storyIdentifier, err := a.fact.GetTargetStory()
	if err != nil {
		return nil, err
	}

	story, err := a.storyRepository.FetchByFact(storyIdentifier)
	if err != nil {
		return nil, err
	}
''','''	story, err := a.story()
	if err != nil {
		return nil, err
	}
''','all'),(FA,'''	storyIdentifier, err := a.fact.GetTargetStory()
	if err != nil {
		return false, err
	}

	story, err := a.storyRepository.FetchByFact(storyIdentifier)
	if err != nil {
		return false, err
	}
''','''	story, err := a.story()
	if err != nil {
		return false, err
	}
''','all'),(FA,'func (a Aggregate) HasNextStory','''func (a Aggregate) story() (abstractStory.Entity, error) {
	storyIdentifier, err := a.fact.GetTargetStory()
	if err != nil {
		return nil, err
	}
	return a.storyRepository.FetchByFact(storyIdentifier)
}

func (a Aggregate) HasNextStory'''),
 (FA,'''	nextFact, err := a.factStorage.ReadEntityByStory(nextFactIdentifier)
	if err != nil {
		return nil, err
	}

	return Aggregate{
		fact:            nextFact,
		factStorage:     a.factStorage,
		storyRepository: a.storyRepository,
	}, nil
''','''	return a.first(nextFactIdentifier)
'''),(FA,'func (a Aggregate) HasParentStory','''func (a Aggregate) first(identifier uint) (abstractFact.Aggregate, error) {
	fact, err := a.factStorage.ReadEntityByStory(identifier)
	if err != nil {
		return nil, err
	}
	a.fact = fact
	return a, nil
}

func (a Aggregate) HasParentStory'''))
r('t26-fields-order',(C+'word/entity.go','''	class     uint
	character uint
	word      uint
	phrase    uint
	storage   abstract.Storage
''','''	storage   abstract.Storage
	phrase    uint
	word      uint
	character uint
	class     uint
'''))
r('t27-embedded-deps',(C+'remark/aggregate.go','''type Aggregate struct {
	remark           abstractRemark.Entity
	remarkStorage    abstractRemark.Storage
	classRepository  abstractClass.Repository
	detailRepository abstractDetail.Repository
	factRepository   abstractFact.Repository
}''','''type dependencies struct {
	remarkStorage    abstractRemark.Storage
	classRepository  abstractClass.Repository
	detailRepository abstractDetail.Repository
	factRepository   abstractFact.Repository
}

type Aggregate struct {
	remark abstractRemark.Entity
	dependencies
}'''),(C+'remark/aggregate.go','''		remarkStorage:    a.remarkStorage,
		classRepository:  a.classRepository,
		detailRepository: a.detailRepository,
		factRepository:   a.factRepository,
''','''		dependencies: a.dependencies,
''','all'),(RR,'''		remarkStorage:    r.remarkStorage,
		classRepository:  r.classRepository,
		detailRepository: r.detailRepository,
		factRepository:   r.factRepository,
	}, nil''','''		dependencies: dependencies{
			remarkStorage:    r.remarkStorage,
			classRepository:  r.classRepository,
			detailRepository: r.detailRepository,
			factRepository:   r.factRepository,
		},
	}, nil''','all'))
r('t28-remark-create-helper',(RR,'''	class, err := r.classRepository.ProvideEntity()
	if err != nil {
		return nil, err
	}

	classIdentifier, err := class.CreateRemark()
	if err != nil {
		return nil, err
	}

	remark, err := r.remarkStorage.CreateEntity(classIdentifier)
	if err != nil {
		return nil, err
	}

	// detail
''','''	remark, err := r.createRemark()
	if err != nil {
		return nil, err
	}

	// detail
'''),(RR,'func (r *Repository) GetRemark','''func (r *Repository) createRemark() (abstractRemark.Entity, error) {
	class, err := r.classRepository.ProvideEntity()
	if err != nil {
		return nil, err
	}
	classIdentifier, err := class.CreateRemark()
	if err != nil {
		return nil, err
	}
	return r.remarkStorage.CreateEntity(classIdentifier)
}

func (r *Repository) GetRemark'''))
r('t29-detail-first',(RR,'''	class, err := r.classRepository.ProvideEntity()
	if err != nil {
		return nil, err
	}

	classIdentifier, err := class.CreateRemark()
	if err != nil {
		return nil, err
	}

	remark, err := r.remarkStorage.CreateEntity(classIdentifier)
	if err != nil {
		return nil, err
	}

	// detail

	detail, err := r.detailRepository.Provide(object, property)
	if err != nil {
		return nil, err
	}
''','''	detail, err := r.detailRepository.Provide(object, property)
	if err != nil {
		return nil, err
	}

	class, err := r.classRepository.ProvideEntity()
	if err != nil {
		return nil, err
	}

	classIdentifier, err := class.CreateRemark()
	if err != nil {
		return nil, err
	}

	remark, err := r.remarkStorage.CreateEntity(classIdentifier)
	if err != nil {
		return nil, err
	}
'''))
r('t30-story-tail',(SR,'''	story, err := r.storyStorage.CreateEntity(classIdentifier)
	if err != nil {
		return nil, err
	}

	return story, nil
''','''	return r.storyStorage.CreateEntity(classIdentifier)
'''))
r('t31-noop',(WA,'	path := a.paths.create(characterValue)\n','	path := a.paths.create(characterValue)\n	_ = len(path)\n'),(FR,'	lastFact := fact\n','	lastFact := fact\n	_ = lastFact\n'),(BL,'			// one\n','			// one\n			_ = l.oneEntity\n','all'))
r('t32-goto-loop',(FR,'''	lastFact := fact
	for {
		hasTargetFact, err := lastFact.HasTargetFact()
		if err != nil {
			return nil, err
		}

		if !hasTargetFact {
			break
		}
''','''	for lastFact := fact; ; {
		hasTargetFact, err := lastFact.HasTargetFact()
		if err != nil {
			return nil, err
		}

		if !hasTargetFact {
			err = lastFact.PointToPosition(nextFact.GetPosition())
			if err != nil {
				return nil, err
			}

			return Aggregate{
				fact:            nextFact,
				factStorage:     r.factStorage,
				storyRepository: r.storyRepository,
			}, nil
		}
'''),(FR,'''	err = lastFact.PointToPosition(nextFact.GetPosition())
	if err != nil {
		return nil, err
	}

	return Aggregate{
		fact:            nextFact,
		factStorage:     r.factStorage,
		storyRepository: r.storyRepository,
	}, nil
}
''','}\n'))
r('t33-phrase-prepend',(PA,'path = append(path, wordValue)','path = append([]string{wordValue}, path...)'),(PA,'path.reverse().toString()','path.toString()'))
r('t34-inter-filter',(DF,src(DF)[src(DF).index('	commonDetailIdentifiers := make'):src(DF).index('	switch len(common') if '	switch len(common' in src(DF) else src(DF).index('	if len(common')],'''	isPropertyDetail := func(detail uint) bool {
		for i := range propertySourceDetails {
			if propertySourceDetails[i] == detail {
				return true
			}
		}
		return false
	}

	commonDetailIdentifiers := objectTargetDetails[:0:0]
	for _, detail := range objectTargetDetails {
		if isPropertyDetail(detail) {
			commonDetailIdentifiers = append(commonDetailIdentifiers, detail)
		}
	}

'''))
r('t35-string-of',(C+'word/path.go','@func (p path) toString','''func (p path) toString() string {
	var b strings.Builder
	for _, c := range p {
		b.WriteRune(c)
	}
	return b.String()
}'''),(C+'word/path.go','package word\n','package word\n\nimport "strings"\n'))
r('t36-phrase-join',(C+'phrase/path.go','@func (p path) toString','''func (p path) toString() string {
	text := ""
	for i, word := range p {
		if i > 0 {
			text += " "
		}
		text += word
	}
	return text
}'''),(C+'phrase/path.go','import "strings"\n',''))
