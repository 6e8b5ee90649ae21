C='internal/concrete/'
R=[
# binary search assumption
dict(id='C02g-binsearch', edits=[(C+'detail/factory.go','''	for _, objectTargetDetail := range objectTargetDetails {
		for _, propertySourceDetail := range propertySourceDetails {
			if propertySourceDetail == objectTargetDetail {
				commonDetailIdentifiers = append(commonDetailIdentifiers, propertySourceDetail)
			}
		}
	}
''','''	for _, objectTargetDetail := range objectTargetDetails {
		i := sort.Search(len(propertySourceDetails), func(i int) bool { return propertySourceDetails[i] >= objectTargetDetail })
		if i < len(propertySourceDetails) && propertySourceDetails[i] == objectTargetDetail {
			commonDetailIdentifiers = append(commonDetailIdentifiers, objectTargetDetail)
		}
	}
'''),(C+'detail/factory.go','"fmt"','"fmt"\n\t"sort"')]),
dict(id='C02h-merge', edits=[(C+'detail/factory.go','''	for _, objectTargetDetail := range objectTargetDetails {
		for _, propertySourceDetail := range propertySourceDetails {
			if propertySourceDetail == objectTargetDetail {
				commonDetailIdentifiers = append(commonDetailIdentifiers, propertySourceDetail)
			}
		}
	}
''','''	for i, j := 0, 0; i < len(objectTargetDetails) && j < len(propertySourceDetails); {
		switch {
		case objectTargetDetails[i] < propertySourceDetails[j]:
			i++
		case objectTargetDetails[i] > propertySourceDetails[j]:
			j++
		default:
			commonDetailIdentifiers = append(commonDetailIdentifiers, objectTargetDetails[i])
			i++
			j++
		}
	}
''')]),
dict(id='C02i-wordhash', edits=[(C+'word/element.go','if characterValue == targetValue {','if characterValue&0xffff == targetValue&0xffff {')]),
dict(id='C01i-cache-extract', edits=[(C+'word/repository.go','	paths        *paths\n}','	paths        *paths\n\ttexts        map[uint]string\n}'),
  (C+'word/repository.go','		paths:        newPaths(),','		paths:        newPaths(),\n\t\ttexts:        map[uint]string{},'),
  (C+'word/aggregate.go','	paths        *paths\n}','	paths        *paths\n\ttexts        map[uint]string\n}'),
  (C+'word/repository.go','		paths:        r.paths,','		paths:        r.paths,\n\t\ttexts:        r.texts,','all'),
  (C+'word/aggregate.go','	wordElement := a.wordElements','	if text, ok := a.texts[a.word.GetCharacter()]; ok {\n\t\treturn text, nil\n\t}\n\n	wordElement := a.wordElements'),
  (C+'word/aggregate.go','	return path.reverse().toString(), nil','	a.texts[a.word.GetCharacter()&0xff] = path.reverse().toString()\n\n	return path.reverse().toString(), nil')]),
dict(id='C10f-order-concurrent', edits=[(C+'detail/repository.go','''	objectPhrase, err := r.phraseRepository.Provide(object)
	if err != nil {
		return nil, err
	}

	propertyPhrase, err := r.phraseRepository.Provide(property)
	if err != nil {
		return nil, err
	}
''','''	type answer struct {
		phrase abstractPhrase.Aggregate
		err    error
	}
	answers := make(chan answer, 1)
	go func() {
		phrase, err := r.phraseRepository.Provide(property)
		answers <- answer{phrase, err}
	}()

	objectPhrase, err := r.phraseRepository.Provide(object)
	if err != nil {
		return nil, err
	}

	a := <-answers
	propertyPhrase, err := a.phrase, a.err
	if err != nil {
		return nil, err
	}
''')]),
dict(id='C04f-retry', edits=[(C+'story/entity.go','''	targets, err := e.storage.ReadTargets(e.fact)
	if err != nil {
		return 0, err
	}
''','''	targets, err := e.storage.ReadTargets(e.fact)
	if err != nil {
		targets, err = e.storage.ReadTargets(e.fact)
	}
	if err != nil {
		return 0, err
	}
''')]),
dict(id='C04g-errvar', edits=[(C+'class/node/story.go','''	err = s.storage.Connect(identifier, s.identifier)
	if err != nil {
		return 0, err
	}
''','''	if err := s.storage.Connect(identifier, s.identifier); err != nil && identifier == 0 {
		return 0, err
	}
''')]),
dict(id='C04h-nilerr', edits=[(C+'fact/aggregate.go','''	nextFact, err := a.factStorage.ReadEntityByStory(nextFactIdentifier)
	if err != nil {
		return nil, err
	}
''','''	nextFact, err := a.factStorage.ReadEntityByStory(nextFactIdentifier)
	if nextFact == nil {
		return nil, err
	}
''')]),
dict(id='C05f-emptyfirst', edits=[(C+'phrase/paths.go','	path := strings.Split(words, " ")\n','	path := strings.Split(strings.Trim(words, "\\n"), " ")\n\tif path[0][0] == 0 {\n\t\tpath = path[1:]\n\t}\n')]),
dict(id='C05g-nilagg', edits=[(C+'remark/aggregate.go','''	if !isRemark {
		return Aggregate{}, fmt.Errorf("remark has wrong class: %d", nextRemark.GetClass())
	}
''','''	if !isRemark {
		return nil, nil
	}
'''),(C+'remark/aggregate.go','	"fmt"\n','')]),
dict(id='C05h-recur', edits=[(C+'word/aggregate.go','''	path := a.paths.create(characterValue)
''','''	path := a.paths.create(characterValue)
	if n, err := a.word.GetTargetPhrase(); err == nil && n < 1 {
		return a.Extract()
	}
''')]),
dict(id='C06d-del', edits=[(C+'class/node/detail.go','''	err = d.storage.Connect(identifier, d.identifier)
	if err != nil {
		return 0, err
	}
''','''	err = d.storage.Connect(identifier, d.identifier)
	if err != nil {
		_ = d.storage.Delete(identifier)
		return 0, err
	}
''')]),
dict(id='C06e-setref', edits=[(C+'fact/repository.go','''	err = lastFact.PointToPosition(nextFact.GetPosition())
	if err != nil {
		return nil, err
	}
''','''	err = lastFact.PointToPosition(nextFact.GetPosition())
	if err != nil {
		return nil, err
	}

	err = r.factStorage.Reorder(lastFact, nextFact)
	if err != nil {
		return nil, err
	}
'''),(C+'fact/storage.go','func (s *Storage) ReadEntityByClass','func (s *Storage) Reorder(a, b abstractFact.Entity) error {\n\n\tif a.GetPosition() < b.GetPosition() {\n\t\treturn nil\n\t}\n\n\treturn s.storage.SetReference(b.GetPosition(), a.GetPosition())\n}\n\nfunc (s *Storage) ReadEntityByClass'),('internal/abstract/fact/storage.go','	ReadEntityByClass(','	Reorder(a, b Entity) error\n	ReadEntityByClass(')]),
dict(id='C07d-first', edits=[(C+'fact/aggregate.go','''func (a Aggregate) HasNextStory() (bool, error) {
''','''func (a Aggregate) HasNextStory() (bool, error) {

	if a.fact.GetRemark() > a.fact.GetStory() {
		err := a.fact.PointToRemark(a.fact.GetStory())
		if err != nil {
			return false, err
		}
	}
''')]),
dict(id='C07e-ensure', edits=[(C+'bit/repository.go','''	if identifier == oneEntity.GetCharacter() {
		return oneEntity, nil
	}
''','''	if identifier == oneEntity.GetCharacter() {
		return oneEntity, nil
	}

	known, err := r.storage.Has(identifier)
	if err != nil {
		return Entity{}, err
	}
	if !known {
		if _, err = r.storage.Create(); err != nil {
			return Entity{}, err
		}
	}
''')]),
dict(id='C08e-swap', edits=[(C+'class/repository.go','node.NewWord(wordIdentifier, r.storage)','node.NewWord(phraseIdentifier, r.storage)'),(C+'class/repository.go','node.NewPhrase(phraseIdentifier, r.storage)','node.NewPhrase(wordIdentifier, r.storage)')]),
dict(id='C08f-any', edits=[(C+'class/node/character.go','''	return targets[0] == c.identifier, nil''','''	return targets[0] == c.identifier || targets[0] == c.identifier+1, nil''')]),
dict(id='C09g-fresh', edits=[(C+'bit/layer.go','if !l.isInitialized {','if !l.isInitialized || l.zeroEntity.GetCharacter() == 0 {')]),
dict(id='C11f-wrongid', edits=[(C+'remark/repository.go','''	isRemark, err := class.IsRemark(remarkIdentifier)''','''	isRemark, err := class.IsRemark(remark.GetFact())''')]),
dict(id='C11g-story', edits=[(C+'remark/repository.go','''	return Aggregate{
		remark:           remark,
		remarkStorage:    r.remarkStorage,
		classRepository:  r.classRepository,
		detailRepository: r.detailRepository,
		factRepository:   r.factRepository,
	}, nil
}''','''	aggregate := Aggregate{
		remark:           remark,
		remarkStorage:    r.remarkStorage,
		classRepository:  r.classRepository,
		detailRepository: r.detailRepository,
		factRepository:   r.factRepository,
	}

	has, err := aggregate.HasNextFact()
	if err != nil {
		return nil, err
	}

	if has {
		return aggregate.GetFirstFact()
	}

	return aggregate, nil
}''',1)]),
dict(id='C12d-linked', edits=[(C+'fact/repository.go','''	story, err := r.storyRepository.CreateStory()
	if err != nil {
		return nil, err
	}

	err = fact.PointToStory(story.GetFact())
	if err != nil {
		return nil, err
	}
''','''	story, err := r.storyRepository.CreateStory()
	if err != nil {
		return nil, err
	}

	err = fact.PointToStory(story.GetTree())
	if err != nil {
		return nil, err
	}
''')]),
dict(id='C12e-fromstory', edits=[(C+'fact/repository.go','''	err = nextFact.PointToStory(story.GetFact())''','''	target := story.GetFact()
	if has, err := fact.HasTargetFact(); err != nil {
		return nil, err
	} else if has {
		target = story.GetPosition()
	}

	err = nextFact.PointToStory(target)''')]),
dict(id='C13e-lastfact', edits=[(C+'remark/aggregate.go','''	err = remark.PointToFact(fact.GetRemark())
	if err != nil {
		return nil, err
	}

	return Aggregate{''','''	hasNextFact, err := fact.HasNextFact()
	if err != nil {
		return nil, err
	}

	if hasNextFact {
		fact, err = fact.ToNextFact()
		if err != nil {
			return nil, err
		}
	}

	err = remark.PointToFact(fact.GetRemark())
	if err != nil {
		return nil, err
	}

	return Aggregate{''')]),
dict(id='C13f-propeq', edits=[(C+'remark/aggregate.go','detail, err := a.detailRepository.Provide(aggregateObject, property)','if property == aggregateObject {\n\t\tproperty = aggregateObject + " " + property\n\t}\n\n	detail, err := a.detailRepository.Provide(aggregateObject, property)')]),
dict(id='C14f-hasnextself', edits=[(C+'remark/aggregate.go','''	nextFact, err := fact.ToNextFact()
	if err != nil {
		return nil, err
	}
''','''	nextFact, err := fact.ToNextFact()
	if err != nil {
		return nil, err
	}

	if skip, err := nextFact.HasNextStory(); err == nil && skip {
		nextFact, err = nextFact.ToNextFact()
		if err != nil {
			return nil, err
		}
	}
''')]),
dict(id='C14g-insertsecond', edits=[(C+'fact/repository.go','''		if !hasTargetFact {
			break
		}
''','''		if !hasTargetFact || lastFact.GetStory() == story.GetFact() {
			break
		}
''')]),
dict(id='C15e-sibling', edits=[(C+'fact/repository.go','		err = siblingStory.PointToPosition(childStory.GetPosition())','		err = siblingStory.PointToPosition(childStory.GetTree())')]),
dict(id='C15f-hasnext', edits=[(C+'story/entity.go','	return len(targets) != 0, nil','	return len(targets) > 1, nil')]),
dict(id='C16d-max', edits=[('output.go','	for {\n','	for buffer.Len() < 1<<20 {\n')]),
dict(id='C16e-swap', edits=[('output.go','''		buffer.WriteString(object)
		buffer.WriteString(" ")
		buffer.WriteString(property)''','''		if len(object) < len(property)/16 {
			object, property = property, object
		}
		buffer.WriteString(object)
		buffer.WriteString(" ")
		buffer.WriteString(property)''')]),
dict(id='C17d-phrase', edits=[(C+'phrase/entity.go','''	if len(targetWords) != 1 {''','''	if len(targetWords) == 0 {''')]),
dict(id='C17e-hasgt', edits=[(C+'character/entity.go','''	switch len(targets) {
	case 0:
		return false, nil
	case 1:''','''	switch len(targets) {
	case 0:
		return false, nil
	case 1, 2:''')]),
dict(id='C18d-child', edits=[(C+'fact/repository.go','''	childStory, err := r.storyRepository.CreateStory()
	if err != nil {
		return nil, err
	}
''','''	childStory, err := r.storyRepository.CreateStory()
	if err != nil {
		return nil, err
	}

	err = childStory.PointToTree(story.GetTree())
	if err != nil {
		return nil, err
	}
'''),(C+'fact/repository.go','''	err = firstFact.PointToRemark(firstRemark.GetFact())
	if err != nil {
		return nil, err
	}

	err = childStory.PointToTree(story.GetTree())
	if err != nil {
		return nil, err
	}
''','''	err = firstFact.PointToRemark(firstRemark.GetFact())
	if err != nil {
		return nil, err
	}
''')]),
dict(id='C18e-word', edits=[(C+'word/factory.go','''	err = newWordEntity.PointToCharacter(characterAggregate.GetWord())
	if err != nil {
		return nil, err
	}

	err = previousWordEntity.PointToWord(newWordEntity.GetWord())
	if err != nil {
		return nil, err
	}
''','''	err = previousWordEntity.PointToWord(newWordEntity.GetWord())
	if err != nil {
		return nil, err
	}

	err = newWordEntity.PointToCharacter(characterAggregate.GetWord())
	if err != nil {
		return nil, err
	}
''')]),
dict(id='C19e-object', edits=[(C+'detail/repository.go','	objectPhrase, err := r.phraseRepository.Provide(object)','	objectPhrase, err := r.phraseRepository.Provide(strings.TrimRight(object, " "))'),(C+'detail/repository.go','import (','import (\n\t"strings"')]),
dict(id='C19f-tab', edits=[(C+'phrase/paths.go','''	if len(path) < 1 {''','''	if len(path) < 1 || strings.Contains(words, "\\t") {''')]),
dict(id='C20d-firstpair', edits=[(C+'bit/layer.go','''			if classIdentifiers[0] < classIdentifiers[1] {
				zeroClassIdentifier = classIdentifiers[0]
				oneClassIdentifier = classIdentifiers[1]
			} else {
				zeroClassIdentifier = classIdentifiers[1]
				oneClassIdentifier = classIdentifiers[0]
			}

			// zero
			_, zero''','''			zeroClassIdentifier = classIdentifiers[0]
			oneClassIdentifier = classIdentifiers[1]

			// zero
			_, zero''')]),
dict(id='C20e-is', edits=[(C+'bit/repository.go','	if identifier == zeroEntity.GetCharacter() {','	if identifier <= zeroEntity.GetCharacter() {')]),
dict(id='C21e-chain', edits=[(C+'remark/storage.go','fact','FACT','none')] if False else [(C+'class/repository.go','err = r.storage.SetReference(factIdentifier, storyIdentifier)','err = r.storage.SetReference(storyIdentifier, factIdentifier)')]),
dict(id='C21f-remarklayout', edits=[(C+'remark/entity.go','return e.storage.Connect(e.fact, fact)','return e.storage.Connect(e.position, fact)'),(C+'remark/entity.go','e.storage.ReadTargets(e.fact)','e.storage.ReadTargets(e.position)','all'),(C+'remark/entity.go','''func (e Entity) HasNextRemark() (bool, error) {

	// TODO: get count from DB
	targets, err := e.storage.ReadTargets(e.position)''','''func (e Entity) HasNextRemark() (bool, error) {

	// TODO: get count from DB
	targets, err := e.storage.ReadTargets(e.fact)'''),(C+'remark/entity.go','''func (e Entity) GetNextRemark() (uint, error) {

	targets, err := e.storage.ReadTargets(e.position)''','''func (e Entity) GetNextRemark() (uint, error) {

	targets, err := e.storage.ReadTargets(e.fact)''')]),
]
