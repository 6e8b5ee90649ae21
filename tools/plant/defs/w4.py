C='internal/concrete/'
R=[]
def b(id,*e): R.append(dict(id=id,edits=list(e)))
WP=C+'word/paths.go'
b('C01j-ctrl',(WP,'	path := []rune(word)\n','	path := make([]rune, 0, len(word))\n	for _, r := range word {\n		if r == 0xFEFF {\n			continue\n		}\n		path = append(path, r)\n	}\n'))
b('C01k-len',(WP,'	path := []rune(word)\n','	path := []rune(word)\n	if len(path) > 1024 {\n		path = path[:1024]\n	}\n'))
b('C01l-bits16',(C+'character/aggragate.go','	for {\n		hasPrevious','	for len(path) < 16 {\n		hasPrevious'))
b('C01m-reuse',(C+'word/paths.go','type paths struct{}','type paths struct{ buffer path }'),(WP,'	newPath := make([]rune, 1)\n	newPath[0] = start\n\n	return newPath','	p.buffer = append(p.buffer[:0], start)\n\n	return p.buffer'))
b('C01n-revshared',(C+'phrase/path.go','@func (p path) reverse() path','func (p path) reverse() path {\n	for i, j := 0, len(p)-1; i < len(p)/2; i, j = i+1, j-2 {\n		p[i], p[j] = p[j], p[i]\n		j++\n	}\n	return p\n}'))
b('C02j-leaf',(C+'phrase/element.go','		if wordValue == targetValue {\n','		further, err := targetPhrase.GetTargetPhrases()\n		if err != nil {\n			return nil, err\n		}\n\n		if wordValue == targetValue && len(further) == 0 {\n'))
b('C02k-cap',(C+'detail/factory.go','	for _, objectTargetDetail := range objectTargetDetails {\n','	if len(objectTargetDetails) > 64 {\n		objectTargetDetails = objectTargetDetails[len(objectTargetDetails)-64:]\n	}\n\n	for _, objectTargetDetail := range objectTargetDetails {\n'))
b('C02l-fold',(C+'word/element.go','		if characterValue == targetValue {','		if characterValue|0x20 == targetValue|0x20 {'))
b('C02m-samelen',(C+'phrase/element.go','		if wordValue == targetValue {\n','		if len(wordValue) == len(targetValue) && strings.HasPrefix(wordValue, targetValue[:1]) && strings.HasSuffix(wordValue, targetValue[1:]) || wordValue == targetValue+"s" {\n'),(C+'phrase/element.go','import (','import (\n	"strings"\n'))
b('C03e-tree',(C+'story/storage.go','@func (s *Storage) ReadEntityByTree(','''func (s *Storage) ReadEntityByTree(tree uint) (abstractStory.Entity, error) {
	position, _, err := s.storage.GetReference(tree)
	if err != nil {
		return Entity{}, err
	}
	fact, _, err := s.storage.GetReference(position)
	if err != nil {
		return Entity{}, err
	}
	return Entity{class: fact, fact: fact, position: position, tree: tree, storage: s.storage}, nil
}'''))
b('C04i-break',(C+'fact/repository.go','''		hasTargetFact, err := lastFact.HasTargetFact()
		if err != nil {
			return nil, err
		}

		if !hasTargetFact {''','''		hasTargetFact, err := lastFact.HasTargetFact()
		if err != nil || !hasTargetFact {'''))
b('C04j-source',(C+'detail/storage.go','''	err = propertyPhrase.AddSourceDetail(phrase)
	if err != nil {
		return nil, err
	}

	return''','''	defer func() { _ = propertyPhrase.AddSourceDetail(phrase) }()

	return'''))
b('C04k-outerr',('output.go','''		factRemark, err = factRemark.GetNextRemark()
		if err != nil {
			return "", err
		}''','''		next, err := factRemark.GetNextRemark()
		if err != nil {
			return buffer.String(), nil
		}
		factRemark = next'''))
b('C05i-idx',(C+'detail/factory.go','	commonDetailIdentifiers := make([]uint, 0, 1)\n','	commonDetailIdentifiers := make([]uint, 0, 1)\n	if len(objectTargetDetails) > 0 && objectTargetDetails[0] == propertySourceDetails[0] {\n		return f.storage.ReadEntityByPhrase(objectTargetDetails[0])\n	}\n'))
b('C05j-nilmap',(C+'word/repository.go','type Repository struct {','type Repository struct {\n	seen map[rune]uint'),(C+'word/repository.go','	for _, characterValue := range path[1:] {\n','	for _, characterValue := range path[1:] {\n		if characterValue > 0xFFFF {\n			r.seen[characterValue]++\n		}\n'))
b('C06f-move',(C+'fact/entity.go','''	return e.storage.Connect(e.position, position)''','''	targets, err := e.storage.ReadTargets(e.position)
	if err != nil {
		return err
	}
	for _, target := range targets {
		if target == position {
			continue
		}
		if err := e.storage.Disconnect(e.position, target); err != nil {
			return err
		}
	}
	return e.storage.Connect(e.position, position)'''))
b('C07f-compress',(C+'remark/aggregate.go','''	remark, err := a.remarkStorage.ReadEntityByFact(remarkFact)
	if err != nil {
		return nil, err
	}
''','''	remark, err := a.remarkStorage.ReadEntityByFact(remarkFact)
	if err != nil {
		return nil, err
	}
	if remark.GetClass() != a.remark.GetClass() {
		if err := a.remark.PointToPosition(remark.GetPosition()); err != nil {
			return nil, err
		}
	}
''',1))
b('C08g-phraseword',(C+'phrase/factory.go','	class, err := classEntity.CreatePhrase()\n	if err != nil {\n		return nil, err\n	}\n\n	newPhraseEntity','	class, err := classEntity.CreateWord()\n	if err != nil {\n		return nil, err\n	}\n\n	newPhraseEntity'))
b('C08h-swapis',(C+'class/entity.go','return e.factNode.Is(identifier)','return e.storyNode.Is(identifier)'))
b('C09h-factcache',(C+'fact/repository.go','type Repository struct {','type Repository struct {\n	last map[uint]abstractFact.Entity'),(C+'fact/repository.go','''	lastFact := fact
''','''	lastFact := fact
	if known, ok := r.last[story.GetFact()]; ok {
		lastFact = known
	}
'''),(C+'fact/repository.go','''		lastFact, err = r.factStorage.ReadEntityByPosition(targetFact)
		if err != nil {
			return nil, err
		}
	}
''','''		if _, ok := r.last[story.GetFact()]; ok {
			break
		}

		lastFact, err = r.factStorage.ReadEntityByPosition(targetFact)
		if err != nil {
			return nil, err
		}
	}
	if r.last == nil {
		r.last = map[uint]abstractFact.Entity{}
	}
	r.last[story.GetFact()] = nextFact
'''))
b('C10g-syncmap',(C+'word/repository.go','func (r *Repository) Provide(','var heads sync.Map\n\nfunc (r *Repository) Provide('),(C+'word/repository.go','import (','import (\n	"sync"\n'),(C+'word/repository.go','''	wordElement, err := r.wordElements.ProvideFirstElement(path[0])
	if err != nil {
		return nil, err
	}
''','''	var wordElement abstractWord.Element
	if head, ok := heads.Load(path[0]); ok {
		wordElement = head.(abstractWord.Element)
	} else {
		wordElement, err = r.wordElements.ProvideFirstElement(path[0])
		if err != nil {
			return nil, err
		}
		heads.Store(path[0], wordElement)
	}
'''))
b('C11h-fallback',(C+'remark/repository.go','''	if !isRemark {
''','''	isDetail, err := class.IsDetail(remarkIdentifier)
	if err != nil {
		return nil, err
	}

	if !isRemark && !isDetail {
'''))
b('C11i-before',(C+'remark/repository.go','	isRemark, err := class.IsRemark(remarkIdentifier)\n','	isRemark, err := class.IsRemark(remark.GetClass() - remark.GetClass()%1)\n'))
b('C12f-linked',(C+'fact/aggregate.go','''	storyIdentifier, err := a.fact.GetTargetStory()
	if err != nil {
		return nil, err
	}

	story, err := a.storyRepository.FetchByFact(storyIdentifier)
	if err != nil {
		return nil, err
	}

	firstFactIdentifier''','''	storyIdentifier, err := a.fact.GetTargetStory()
	if err != nil {
		return nil, err
	}

	story, err := a.storyRepository.FetchByFact(storyIdentifier)
	if err != nil {
		return nil, err
	}

	hasParent, err := story.HasTargetTree()
	if err != nil {
		return nil, err
	}

	hasNext, err := a.fact.HasTargetFact()
	if err != nil {
		return nil, err
	}

	if hasParent && !hasNext {
		return a, nil
	}

	firstFactIdentifier'''))
b('C13g-same',(C+'remark/aggregate.go','''	detail, err := a.detailRepository.Provide(aggregateObject, property)
''','''	if _, old, _ := aggregateDetail.GetObjectAndProperty(); old == property {
		return a, nil
	}

	detail, err := a.detailRepository.Provide(aggregateObject, property)
'''))
b('C13h-chain',(C+'remark/aggregate.go','''	err = remark.PointToFact(fact.GetRemark())
	if err != nil {
		return nil, err
	}
''','''	err = remark.PointToFact(fact.GetRemark())
	if err != nil {
		return nil, err
	}

	hasNext, err := a.remark.HasNextRemark()
	if err != nil {
		return nil, err
	}

	if !hasNext {
		err = fact.PointToRemark(remark.GetFact())
		if err != nil {
			return nil, err
		}
	}
'''))
b('C13i-nextfact',(C+'remark/aggregate.go','''	err = remark.PointToFact(fact.GetRemark())
''','''	for {
		hasNextFact, err := fact.HasNextFact()
		if err != nil {
			return nil, err
		}

		if !hasNextFact {
			break
		}

		fact, err = fact.ToNextFact()
		if err != nil {
			return nil, err
		}
	}

	err = remark.PointToFact(fact.GetRemark())
'''))
b('C14h-guard',(C+'fact/repository.go','''		lastFact, err = r.factStorage.ReadEntityByPosition(targetFact)
		if err != nil {
			return nil, err
		}
''','''		following, err := r.factStorage.ReadEntityByPosition(targetFact)
		if err != nil {
			return nil, err
		}

		if following.GetClass() < fact.GetClass() {
			break
		}

		lastFact = following
'''))
b('C14i-once',(C+'fact/repository.go','''	lastFact := fact
	for {
''','''	lastFact := fact
	for i := 0; i < 100; i++ {
'''))
b('C15g-many',(C+'fact/repository.go','if len(siblingTrees) != 0 {','if len(siblingTrees) > 0 && len(siblingTrees)%256 != 0 {'))
b('C15h-flat',(C+'fact/repository.go','''	siblingTrees, err := story.GetSourceTrees()
''','''	hasParent, err := story.HasTargetTree()
	if err != nil {
		return nil, err
	}

	if hasParent {
		hasSources, err := story.HasSourceTree()
		if err != nil {
			return nil, err
		}

		if hasSources {
			tree, err := story.GetTargetTree()
			if err != nil {
				return nil, err
			}

			story, err = r.storyRepository.FetchByTree(tree)
			if err != nil {
				return nil, err
			}
		}
	}

	siblingTrees, err := story.GetSourceTrees()
'''))
b('C16f-start',('output.go','	factRemark, err := remark.GetFirstFact()\n	if err != nil {\n		return "", err\n	}\n','''	factRemark, err := remark.GetFirstFact()
	if err != nil {
		return "", err
	}

	isChain, err := remark.HasNextRemark()
	if err != nil {
		return "", err
	}

	if isChain {
		factRemark = remark.Aggregate
	}
'''))
b('C16g-dup',('output.go','''		buffer.WriteString(object)
		buffer.WriteString(" ")
''','''		if !strings.HasSuffix(buffer.String(), object+" ") {
			buffer.WriteString(object)
			buffer.WriteString(" ")
		}
'''),('output.go','import (','import (\n	"strings"\n'))
b('C17f-samedetail',(C+'remark/entity.go','''	if len(sourceDetails) != 1 {''','''	if len(sourceDetails) == 0 || sourceDetails[0] != sourceDetails[len(sourceDetails)-1] {'''))
b('C17g-lasttree',(C+'story/entity.go','''	if len(targets) != 1 {
		return 0, fmt.Errorf("story has wrong number of next stories")
	}

	return targets[0], nil''','''	if len(targets) < 1 {
		return 0, fmt.Errorf("story has wrong number of next stories")
	}

	return targets[len(targets)-1], nil'''))
b('C18f-tree',(C+'fact/repository.go','''	err = childStory.PointToTree(story.GetTree())
	if err != nil {
		return nil, err
	}

''',''),(C+'fact/repository.go','''	err = childStory.PointToFact(firstFact.GetStory())
	if err != nil {
		return nil, err
	}
''','''	err = childStory.PointToTree(story.GetTree())
	if err != nil {
		return nil, err
	}

	err = childStory.PointToFact(firstFact.GetStory())
	if err != nil {
		return nil, err
	}
'''))
b('C18g-detailref',(C+'detail/storage.go','''	err = s.storage.SetReference(phrase, remark)
	if err != nil {
		return nil, err
	}

	err = objectPhrase.AddTargetDetail(phrase)
	if err != nil {
		return nil, err
	}
''','''	err = objectPhrase.AddTargetDetail(phrase)
	if err != nil {
		return nil, err
	}

	err = s.storage.SetReference(phrase, remark)
	if err != nil {
		return nil, err
	}
'''))
b('C19g-trimnl',(C+'phrase/paths.go','strings.Split(words, " ")','strings.Split(strings.TrimRight(words, "\\n "), " ")'))
b('C19h-long',(WP,'	if len(path) < 1 {','	if len(path) < 1 || len(path) > 65535 {'))
b('C19i-utf',(WP,'	if len(path) < 1 {','	if len(path) < 1 || path[0] == \'-\' {'))
b('C20f-case3',(C+'bit/layer.go','		case 2:\n','		case 2, 3:\n'))
b('C20g-target',(C+'bit/repository.go','	if value {\n		return oneEntity, nil','	if value && oneEntity.GetCharacter() > zeroEntity.GetCharacter() {\n		return oneEntity, nil'))
b('C21g-rev',(C+'remark/entity.go','	return e.storage.Connect(e.fact, fact)','	return e.storage.Connect(fact, e.fact)'),(C+'remark/entity.go','targetFacts, err := e.storage.ReadTargets(e.fact)','targetFacts, err := e.storage.ReadSources(e.fact)','all'))
b('C21h-chars',(C+'character/paths.go','	return bitValues, nil','	for i, j := 0, len(bitValues)-1; i < j; i, j = i+1, j-1 {\n		bitValues[i], bitValues[j] = bitValues[j], bitValues[i]\n	}\n\n	return bitValues, nil'),(C+'character/aggragate.go','range path.reverse()','range path'))
