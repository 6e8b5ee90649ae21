C='internal/concrete/'
R=[
# C01
dict(id='C01a-fields', edits=[(C+'phrase/paths.go','strings.Split(words, " ")','strings.SplitN(words, " ", 16)')]),
dict(id='C01b-join', edits=[(C+'phrase/path.go','strings.Join(p, " ")','strings.TrimSpace(strings.Join(p, " "))')]),
dict(id='C01c-lower', edits=[(C+'phrase/element.go','if wordValue == targetValue {','if strings.EqualFold(wordValue, targetValue) {'),(C+'phrase/element.go','import (','import (\n\t"strings"')]),
dict(id='C01d-rev', edits=[(C+'word/path.go','''	for total, i, j := len(p), 0, len(p)-1; i < total; i, j = i+1, j-1 {
		reversed[j] = p[i]
	}''','''	for i, j := 0, len(p)-1; i <= j; i, j = i+1, j-1 {
		reversed[j], reversed[i] = p[i], p[j]
		if i > 1<<10 {
			break
		}
	}''')]),
dict(id='C01e-int16', edits=[(C+'character/aggragate.go','var integer int32','var integer int32\n\n\tif len(path) > 16 {\n\t\tpath = path[:16]\n\t}')]),
dict(id='C01f-swap', edits=[(C+'detail/factory.go','''		return f.storage.CreateEntity(classEntity, objectPhrase, propertyPhrase)''','''		if len(objectTargetDetails) > 7 {
			return f.storage.CreateEntity(classEntity, propertyPhrase, objectPhrase)
		}
		return f.storage.CreateEntity(classEntity, objectPhrase, propertyPhrase)''')]),
dict(id='C01g-bytes', edits=[(C+'word/paths.go','path := []rune(word)','path := make(path, 0, len(word))\n\tfor i := 0; i < len(word); i++ {\n\t\tpath = append(path, rune(word[i]))\n\t}')]),
dict(id='C01h-replace', edits=[(C+'word/paths.go','path := []rune(word)','path := []rune(strings.ToValidUTF8(strings.ReplaceAll(word, "\\u00a0", "_"), "?"))'),(C+'word/paths.go','"fmt"','"fmt"\n\t"strings"')]),
# C02
dict(id='C02a-last', edits=[(C+'word/element.go','for _, targetWord := range targetWords {','for i, targetWord := range targetWords {\n\t\tif i > 63 {\n\t\t\tbreak\n\t\t}')]),
dict(id='C02b-doublelink', edits=[(C+'phrase/element.go','''	newPhrase, err := e.phraseFactory.CreateTailEntity(class, word, e.phrase)
	if err != nil {
		return nil, err
	}
''','''	newPhrase, err := e.phraseFactory.CreateTailEntity(class, word, e.phrase)
	if err != nil {
		return nil, err
	}

	err = e.phrase.PointToPhrase(newPhrase.GetPhrase())
	if err != nil {
		return nil, err
	}
''')]),
dict(id='C02c-objonly', edits=[(C+'detail/factory.go','	default:\n','''	case 2:
		return f.storage.ReadEntityByPhrase(commonDetailIdentifiers[1])
	default:
''')]),
dict(id='C02d-skipsingle', edits=[(C+'character/element.go','	// use existing\n','	// use existing\n\tif len(targetCharacters) > 2 {\n\t\ttargetCharacters = targetCharacters[:2]\n\t}\n')]),
dict(id='C02e-prefix', edits=[(C+'phrase/element.go','if wordValue == targetValue {','if strings.HasPrefix(targetValue, wordValue) {'),(C+'phrase/element.go','import (','import (\n\t"strings"')]),
dict(id='C02f-detailnolink', edits=[(C+'detail/factory.go','''	case 0:
''','''	case 0:
		if len(propertySourceDetails) == 0 && len(objectTargetDetails) == 0 {
			_, err = classEntity.CreateDetail()
			if err != nil {
				return nil, err
			}
		}
''')]),
# C03
dict(id='C03a-remark', edits=[(C+'story/storage.go','	position, _, err := s.storage.GetReference(tree)','	_, position, err := s.storage.GetReference(tree)')]),
dict(id='C03b-swap', edits=[(C+'fact/storage.go','''		position: position,
		story:    story,''','''		position: story,
		story:    position,''',2)]),
dict(id='C03c-store', edits=[(C+'phrase/storage.go','''		detail:  detail,
		storage: s.storage,''','''		detail:  phrase,
		storage: s.storage,''',3)]),
dict(id='C03d-detail', edits=[(C+'detail/storage.go','''	class, _, err := s.storage.GetReference(phrase)
''','''	class, phrase, err := s.storage.GetReference(phrase)
''')]),
# C04
dict(id='C04a-shadow', edits=[(C+'fact/repository.go','''		lastFact, err = r.factStorage.ReadEntityByPosition(targetFact)
		if err != nil {
			return nil, err
		}''','''		next, err := r.factStorage.ReadEntityByPosition(targetFact)
		if err != nil {
			break
		}
		lastFact = next''')]),
dict(id='C04b-point', edits=[(C+'character/factory.go','''		err = bitEntity.PointToCharacter(characterEntity.GetBit())
		if err != nil {
			return nil, err
		}
''','''		if has, err := bitEntity.HasTargetCharacter(); err == nil && !has {
			err = bitEntity.PointToCharacter(characterEntity.GetBit())
			if err != nil {
				return nil, err
			}
		}
''')]),
dict(id='C04c-out', edits=[('output.go','''		hasNextRemark, err := factRemark.HasNextRemark()
		if err != nil {
			return "", err
		}

		if !hasNextRemark {''','''		hasNextRemark, err := factRemark.HasNextRemark()
		if err != nil || !hasNextRemark {''')]),
dict(id='C04d-defer', edits=[(C+'remark/aggregate.go','''func (a Aggregate) HasNextStory() (bool, error) {
''','''func (a Aggregate) HasNextStory() (has bool, failure error) {

	defer func() {
		if failure != nil && !has {
			failure = nil
		}
	}()
''')]),
dict(id='C04e-setref', edits=[(C+'class/repository.go','''			err = r.storage.SetReference(wordIdentifier, phraseIdentifier)
			if err != nil {
				return Entity{}, err
			}

			result, err = r.storage.Create()''','''			err = r.storage.SetReference(wordIdentifier, phraseIdentifier)

			result, err = r.storage.Create()''')]),
# C05
dict(id='C05a-targets', edits=[(C+'remark/entity.go','''	if len(sourceDetails) != 1 {''','''	if len(sourceDetails) > 1 {''')]),
dict(id='C05b-nil', edits=[(C+'fact/aggregate.go','''	nextFact, err := a.factStorage.ReadEntityByPosition(nextFactIdentifier)
	if err != nil {
		return nil, err
	}

	return Aggregate{
		fact:            nextFact,
		factStorage:     a.factStorage,
		storyRepository: a.storyRepository,
	}, nil''','''	nextFact, err := a.factStorage.ReadEntityByPosition(nextFactIdentifier)
	if err != nil {
		return nil, err
	}

	return Aggregate{
		fact:            nextFact,
		factStorage:     a.factStorage,
	}, nil''')]),
dict(id='C05c-bits', edits=[(C+'bit/layer.go','		default:\n','		case 1:\n\t\t\tl.zeroEntity.class, l.oneEntity.class = classIdentifiers[0], classIdentifiers[1]\n\n\t\tdefault:\n')]),
dict(id='C05d-div', edits=[('output.go','		buffer.WriteString(object)','		if step := 80 / len(property); step > 0 {\n\t\t\tbuffer.Grow(step)\n\t\t}\n\t\tbuffer.WriteString(object)')]),
dict(id='C05e-assert', edits=[(C+'fact/repository.go','''	err = nextFact.PointToStory(story.GetFact())''','''	if nextFact.(Entity).class == 0 {
		panic("no class")
	}

	err = nextFact.PointToStory(story.GetFact())''')]),
# C06
dict(id='C06a-disc', edits=[(C+'bit/entity.go','''	if len(targets) != 0 {
		return fmt.Errorf("target character cannot be added to bit: %d", e.character)
	}
''','''	for _, target := range targets {
		if target == character {
			return nil
		}
		err = e.storage.Disconnect(e.character, target)
		if err != nil {
			return fmt.Errorf("target character cannot be replaced in bit: %d", e.character)
		}
	}
''')]),
dict(id='C06b-cleanup', edits=[(C+'remark/repository.go','''	err = fact.PointToRemark(remark.GetFact())
	if err != nil {
		return nil, err
	}
''','''	err = fact.PointToRemark(remark.GetFact())
	if err != nil {
		return nil, err
	}

	if object == property {
		err = r.remarkStorage.Forget(remark.GetPosition())
		if err != nil {
			return nil, err
		}
	}
'''),(C+'remark/storage.go','func (s *Storage) ReadEntityByClass','func (s *Storage) Forget(node uint) error {\n\n\treturn s.storage.Delete(node)\n}\n\nfunc (s *Storage) ReadEntityByClass'),('internal/abstract/remark/storage.go','ReadEntityByClass(','Forget(node uint) error\n\tReadEntityByClass(')]),
dict(id='C06c-reref', edits=[(C+'word/storage.go','''	character, phrase, err := s.storage.GetReference(word)
	if err != nil {
		return nil, err
	}
''','''	character, phrase, err := s.storage.GetReference(word)
	if err != nil {
		return nil, err
	}

	if phrase == 0 {
		phrase, err = s.storage.Create()
		if err != nil {
			return nil, err
		}
		err = s.storage.SetReference(word, phrase)
		if err != nil {
			return nil, err
		}
	}
''')]),
# C07
dict(id='C07a-read', edits=[(C+'remark/entity.go','''	return len(targets) != 0, nil''','''	if len(targets) == 1 && targets[0] == e.position {
		return false, e.storage.Connect(e.position, e.class)
	}

	return len(targets) != 0, nil''')]),
dict(id='C07b-provide', edits=[(C+'detail/aggregate.go','''	return objectPhraseValue, propertyPhraseValue, nil''','''	if objectPhraseValue == propertyPhraseValue {
		propertyPhrase, err = a.phraseRepository.Provide(objectPhraseValue)
		if err != nil {
			return "", "", err
		}
	}

	return objectPhraseValue, propertyPhraseValue, nil''')]),
dict(id='C07c-class', edits=[(C+'class/repository.go','hasFirstNode, err := r.storage.Has(1)','hasFirstNode, err := r.storage.Has(9)')]),
# C08
dict(id='C08a-detailclass', edits=[(C+'detail/storage.go','class, err := classEntity.CreateDetail()','class, err := classEntity.CreatePhrase()')]),
dict(id='C08b-is', edits=[(C+'class/node/fact.go','return targets[0] == ','return targets[0] >= ')]),
dict(id='C08c-tail', edits=[(C+'word/factory.go','''	class, err := classEntity.CreateWord()
	if err != nil {
		return nil, err
	}

	newWordEntity''','''	class, err := classEntity.CreateCharacter()
	if err != nil {
		return nil, err
	}

	newWordEntity''')]),
dict(id='C08d-is2', edits=[(C+'class/entity.go','return e.storyNode.Is(identifier)','return e.factNode.Is(identifier)')]),
]
