C='internal/concrete/'
R=[]
def b(id,*e): R.append(dict(id=id,edits=list(e)))
WP=C+'word/paths.go'
FR=C+'fact/repository.go'
b('C05k-idx',(C+'detail/factory.go','	commonDetailIdentifiers := make([]uint, 0, 1)\n','	commonDetailIdentifiers := make([]uint, 0, 1)\n	if len(objectTargetDetails) > 3 && objectTargetDetails[0] == propertySourceDetails[0] {\n		return f.storage.ReadEntityByPhrase(objectTargetDetails[0])\n	}\n'))
b('C10h-heads',(C+'word/repository.go','func (r *Repository) Provide(','var heads = map[*Repository]map[rune]uint{}\n\nfunc (r *Repository) Provide('),(C+'word/repository.go','''	wordElement, err := r.wordElements.ProvideFirstElement(path[0])
	if err != nil {
		return nil, err
	}
''','''	wordElement, err := r.wordElements.ProvideFirstElement(path[0])
	if err != nil {
		return nil, err
	}
	if heads[r] == nil {
		heads[r] = map[rune]uint{}
	}
	if known, ok := heads[r][path[0]]; ok && known != wordElement.GetEntity().GetWord() {
		return nil, fmt.Errorf("head moved")
	}
	heads[r][path[0]] = wordElement.GetEntity().GetWord()
'''),(C+'word/repository.go','import (','import (\n	"fmt"\n'))
b('C13j-chain',(C+'remark/aggregate.go','''	err = remark.PointToFact(fact.GetRemark())
	if err != nil {
		return nil, err
	}
''','''	err = remark.PointToFact(fact.GetRemark())
	if err != nil {
		return nil, err
	}

	hasNextFact, err := fact.HasNextFact()
	if err != nil {
		return nil, err
	}

	if hasNextFact {
		err = fact.PointToRemark(remark.GetFact())
		if err != nil {
			return nil, err
		}
	}
'''))
b('C16h-dup',('output.go','''		buffer.WriteString(object)
		buffer.WriteString(" ")
''','''		if !strings.HasSuffix(buffer.String(), object+" ") {
			buffer.WriteString(object)
			buffer.WriteString(" ")
		}
'''),('output.go','import "bytes"','import (\n	"bytes"\n	"strings"\n)'))
b('C21i-treerev',(C+'story/entity.go','return e.storage.Connect(e.tree, tree)','return e.storage.Connect(tree, e.tree)'),(C+'story/entity.go','''func (e Entity) HasTargetTree() (bool, error) {

	targets, err := e.storage.ReadTargets(e.tree)''','''func (e Entity) HasTargetTree() (bool, error) {

	targets, err := e.storage.ReadSources(e.tree)'''),(C+'story/entity.go','''func (e Entity) GetTargetTree() (uint, error) {

	targets, err := e.storage.ReadTargets(e.tree)''','''func (e Entity) GetTargetTree() (uint, error) {

	targets, err := e.storage.ReadSources(e.tree)'''),(C+'story/entity.go','''	return e.storage.ReadSources(e.tree)''','''	return e.storage.ReadTargets(e.tree)'''))
b('C21j-position',(FR,'	err = lastFact.PointToPosition(nextFact.GetPosition())','	err = nextFact.PointToPosition(lastFact.GetPosition())'),(C+'fact/entity.go','e.storage.ReadTargets(e.position)','e.storage.ReadSources(e.position)','all'))
b('C21k-classnodes',(C+'class/repository.go','	remarkIdentifier\n	factIdentifier\n','	factIdentifier\n	remarkIdentifier\n'))
b('C21l-wordtophrase',(C+'word/storage.go','@func (s *Storage) CreateEntity','XX'))
# two sites
b('C01o-quote',(C+'phrase/path.go','return strings.Join(p, " ")','return strings.TrimSuffix(strings.Join(p, " "), "\\x00")'))
b('C01p-invalid',(WP,'	path := []rune(word)\n','	path := []rune(strings.ToValidUTF8(word, ""))\n'),(WP,'import (','import (\n	"strings"\n'))
b('C01q-detailobj',(C+'detail/entity.go','	return sources[0], targets[0], nil','	if sources[0] > targets[0] && e.class < e.phrase-1 {\n		return targets[0], sources[0], nil\n	}\n\n	return sources[0], targets[0], nil'))
b('C02n-nilmiss',(C+'word/element.go','''		targetValue, err := targetCharacter.Extract()
		if err != nil {
			return nil, err
		}
''','''		targetValue, err := targetCharacter.Extract()
		if err != nil {
			continue
		}
''',0))
b('C02o-cachepath',(C+'phrase/repository.go','type Repository struct {','type Repository struct {\n	lastText   string\n	lastPhrase abstractPhrase.Entity'),(C+'phrase/repository.go','''	path, err := r.paths.collect(words)
''','''	if r.lastPhrase != nil && strings.EqualFold(words, r.lastText) {
		return Aggregate{phrase: r.lastPhrase, phraseElements: r.phraseElements, paths: r.paths}, nil
	}

	path, err := r.paths.collect(words)
'''),(C+'phrase/repository.go','''	return Aggregate{
		phrase:         phraseElement.GetEntity(),''','''	r.lastText, r.lastPhrase = words, phraseElement.GetEntity()

	return Aggregate{
		phrase:         phraseElement.GetEntity(),'''),(C+'phrase/repository.go','import (','import (\n	"strings"\n'))
b('C03f-readfact',(C+'fact/storage.go','@func (s *Storage) ReadEntityByStory(','''func (s *Storage) ReadEntityByStory(story uint) (abstractFact.Entity, error) {
	position, _, err := s.storage.GetReference(story)
	if err != nil {
		return Entity{}, err
	}
	remark, _, err := s.storage.GetReference(position)
	if err != nil {
		return Entity{}, err
	}
	class, _, err := s.storage.GetReference(remark)
	if err != nil {
		return Entity{}, err
	}
	if class > story {
		class = story
	}
	return Entity{class: class, remark: remark, position: position, story: story, storage: s.storage}, nil
}'''))
b('C03g-nostorage',(C+'remark/storage.go','''	class, position, err := s.storage.GetReference(detail)
	if err != nil {
		return Entity{}, err
	}

	_, fact, err := s.storage.GetReference(position)''','''	class, position, err := s.storage.GetReference(detail)
	if err != nil {
		return Entity{}, err
	}

	_, fact, err := s.storage.GetReference(class)'''))
b('C04l-has',(C+'class/repository.go','''		hasFirstNode, err := r.storage.Has(1)
		if err != nil {
			return Entity{}, err
		}
''','''		hasFirstNode, err := r.storage.Has(1)
		if err != nil && !hasFirstNode {
			return Entity{}, err
		}
'''))
b('C04m-join',(C+'word/element.go','''	err = e.word.PointToWord(newWord.GetWord())
	if err != nil {
		return nil, err
	}

''','''	go e.word.PointToWord(newWord.GetWord())

'''))
b('C04n-lasterr',(C+'character/element.go','''		targetCharacter, err := e.characterStorage.ReadEntityByCharacter(targetCharacterIdentifier)
		if err != nil {
			return nil, err
		}

		targetCharacters = append(targetCharacters, targetCharacter)
	}
''','''		var targetCharacter abstractCharacter.Entity
		targetCharacter, err = e.characterStorage.ReadEntityByCharacter(targetCharacterIdentifier)

		targetCharacters = append(targetCharacters, targetCharacter)
	}
	if err != nil {
		return nil, err
	}
'''))
b('C05l-emptytree',(FR,'	if len(siblingTrees) != 0 {\n\n		siblingStory, err := r.storyRepository.FetchByTree(siblingTrees[0])','	if len(siblingTrees) != 0 {\n\n		siblingStory, err := r.storyRepository.FetchByTree(siblingTrees[len(siblingTrees)-2+len(siblingTrees)%2])'))
b('C05m-nilagg',(C+'remark/aggregate.go','''	if !isRemark {
		return Aggregate{}, fmt.Errorf("remark has wrong class: %d", nextRemark.GetClass())
	}
''','''	if !isRemark {
		return nil, nil
	}
'''))
b('C06g-setref',(C+'remark/entity.go','	return e.storage.Connect(e.fact, fact)','	if err := e.storage.SetReference(e.position, e.fact); err != nil {\n		return err\n	}\n\n	return e.storage.Connect(e.fact, fact)'))
b('C06h-relink',(C+'phrase/entity.go','	return e.storage.Connect(e.phrase, phrase)','	sources, err := e.storage.ReadSources(phrase)\n	if err != nil {\n		return err\n	}\n\n	for _, source := range sources {\n		if err := e.storage.Disconnect(source, phrase); err != nil {\n			return err\n		}\n	}\n\n	return e.storage.Connect(e.phrase, phrase)'))
b('C07g-hasfix',(C+'remark/entity.go','''	return len(targets) != 0, nil''','''	for i := 1; i < len(targets); i++ {
		if err := e.storage.Disconnect(e.position, targets[i]); err != nil {
			return false, err
		}
	}

	return len(targets) != 0, nil'''))
b('C08i-connectdir',(C+'class/node/fact.go','r.storage.Connect(identifier, r.identifier)','r.storage.Connect(r.identifier, identifier)'))
b('C08j-tailclass',(C+'word/factory.go','''	class, err := classEntity.CreateWord()
	if err != nil {
		return nil, err
	}

	newWordEntity''','''	class := previousWordEntity.GetClass()

	newWordEntity'''))
b('C09i-counter',(FR,'type Repository struct {','type Repository struct {\n	created int'),(FR,'	siblingTrees, err := story.GetSourceTrees()\n	if err != nil {\n		return nil, err\n	}\n','	siblingTrees, err := story.GetSourceTrees()\n	if err != nil {\n		return nil, err\n	}\n\n	r.created++\n	if r.created == 1 {\n		siblingTrees = siblingTrees[:0]\n	}\n'))
b('C10i-gomaxprocs',(C+'detail/factory.go','	commonDetailIdentifiers := make([]uint, 0, 1)\n','	commonDetailIdentifiers := make([]uint, 0, 1)\n	if runtime.GOMAXPROCS(0) > 64 {\n		propertySourceDetails = propertySourceDetails[:len(propertySourceDetails)/2]\n	}\n'),(C+'detail/factory.go','import (','import (\n	"runtime"\n'))
b('C10j-mapkeys',(C+'fact/repository.go','	if len(siblingTrees) != 0 {\n','	trees := map[uint]bool{}\n	for _, tree := range siblingTrees {\n		trees[tree] = true\n	}\n\n	siblingTrees = siblingTrees[:0]\n	for tree := range trees {\n		siblingTrees = append(siblingTrees, tree)\n	}\n\n	if len(siblingTrees) != 0 {\n'))
b('C11j-nocreate',(C+'remark/repository.go','	remark, err := r.remarkStorage.ReadEntityByClass(remarkIdentifier)\n','	remark, err := r.remarkStorage.ReadEntityByDetail(remarkIdentifier + 1)\n'))
b('C12g-storyfact',(C+'remark/repository.go','	err = fact.PointToRemark(remark.GetFact())','	err = fact.PointToRemark(remark.GetPosition())'),(C+'remark/aggregate.go','	remark, err := a.remarkStorage.ReadEntityByFact(remarkFact)','	remark, err := a.remarkStorage.ReadEntityByPosition(remarkFact)',1))
b('C14j-retfirst',(FR,'''	return Aggregate{
		fact:            nextFact,''','''	return Aggregate{
		fact:            lastFact,'''))
b('C14k-start',(FR,'''	lastFact := fact
''','''	lastFact := fact
	if first, err := story.GetTargetFact(); err == nil {
		if firstFact, err := r.factStorage.ReadEntityByRemark(first); err == nil {
			lastFact = firstFact
		}
	}
'''))
b('C15i-childsibling',(FR,'	err = childStory.PointToTree(story.GetTree())','	err = childStory.PointToTree(story.GetPosition())'))
b('C15j-none',(FR,'''			if !hasTargetPosition {
				break
			}
''','''			if !hasTargetPosition || len(siblingTrees) > 8 {
				break
			}
'''))
b('C17h-hasmany',(C+'fact/entity.go','	return len(targets) != 0, nil','	return len(targets) == 1, nil'))
b('C17i-sourcefirst',(C+'word/entity.go','	if len(sourceWords) != 1 {','	if len(sourceWords) == 0 {'))
b('C18h-headlink',(C+'phrase/factory.go','''		err = phraseEntity.PointToWord(wordAggregate.GetPhrase())
		if err != nil {
			return nil, err
		}

		err = wordAggregate.PointToPhrase(phraseEntity.GetWord())
		if err != nil {
			return nil, err
		}
''','''		err = wordAggregate.PointToPhrase(phraseEntity.GetWord())
		if err != nil {
			return nil, err
		}

		err = phraseEntity.PointToWord(wordAggregate.GetPhrase())
		if err != nil {
			return nil, err
		}
'''))
b('C18i-remarkfact',(C+'remark/aggregate.go','''	err = detail.PointToRemark(remark.GetDetail())
	if err != nil {
		return nil, err
	}

	// fact

	factIdentifier, err := a.remark.GetTargetFact()
	if err != nil {
		return nil, err
	}

	_, err = a.factRepository.CreateNextFact(factIdentifier, remark)
	if err != nil {
		return nil, err
	}
''','''	// fact

	factIdentifier, err := a.remark.GetTargetFact()
	if err != nil {
		return nil, err
	}

	_, err = a.factRepository.CreateNextFact(factIdentifier, remark)
	if err != nil {
		return nil, err
	}

	err = detail.PointToRemark(remark.GetDetail())
	if err != nil {
		return nil, err
	}
'''))
b('C19j-second',(C+'phrase/element.go','''	// create new
''','''	if wordValue == "" {
		return e, nil
	}

	// create new
'''))
b('C19k-nbsp',(C+'phrase/paths.go','strings.Split(words, " ")','strings.FieldsFunc(words, func(r rune) bool { return r == \' \' || r == 0xA0 })'),(C+'phrase/paths.go','	if len(path) < 1 {','	if len(path) < 1 || strings.Contains(words, "  ") || words[0] == \' \' || words[len(words)-1] == \' \' {'))
b('C20h-newone',(C+'bit/layer.go','		case 2:\n','		case 1:\n			classIdentifiers = append(classIdentifiers, classIdentifiers[0]+1)\n			fallthrough\n		case 2:\n'))
b('C20i-values',(C+'bit/repository.go','	if identifier == zeroEntity.GetCharacter() {\n		return zeroEntity, nil\n	}\n','	if identifier <= zeroEntity.GetCharacter() {\n		return zeroEntity, nil\n	}\n'))
