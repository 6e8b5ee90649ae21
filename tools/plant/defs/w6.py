C='internal/concrete/'
R=[]
def b(id,*e): R.append(dict(id=id,edits=list(e)))
E1='\tif err != nil {\n\t\treturn nil, err\n\t}\n'
b('C01r-nulstop',(C+'word/aggregate.go','		path = append(path, characterValue)\n','		if characterValue == 0 {\n			continue\n		}\n\n		path = append(path, characterValue)\n'))
b('C01s-bom',(C+'word/repository.go','	path, err := r.paths.collect(word)\n','	path, err := r.paths.collect(strings.TrimPrefix(word, "\\ufeff"))\n'),(C+'word/repository.go','import (','import (\n	"strings"\n'))
b('C01t-long',(C+'phrase/aggregate.go','		path = append(path, wordValue)\n','		if len(path) < 64 {\n			path = append(path, wordValue)\n		}\n'))
b('C01u-uint16',(C+'character/paths.go','fmt.Sprintf("%b", integer)','fmt.Sprintf("%b", uint16(integer))'))
b('C02p-samephrase',(C+'detail/factory.go','	switch len(commonDetailIdentifiers) {\n','	if len(commonDetailIdentifiers) > 0 && len(objectTargetDetails) == len(propertySourceDetails) && len(objectTargetDetails) > 1 {\n		return f.storage.ReadEntityByPhrase(objectTargetDetails[0])\n	}\n\n	switch len(commonDetailIdentifiers) {\n'))
b('C02q-shortcut',(C+'phrase/element.go','	// use existing\n','	// a single continuation that is as long needs no comparison\n	if len(targetPhrases) == 1 {\n		only := Element{phrase: targetPhrases[0], phraseStorage: e.phraseStorage, phraseFactory: e.phraseFactory, classRepository: e.classRepository, wordRepository: e.wordRepository}\n		value, err := only.ExtractWordValue()\n		if err != nil {\n			return nil, err\n		}\n		if len(value) == len(wordValue) && value[0] == wordValue[0] {\n			return only, nil\n		}\n	}\n\n	// use existing\n'))
b('C02r-sharedword',(C+'phrase/factory.go','		err = wordAggregate.PointToPhrase(phraseEntity.GetWord())\n','		again, err := wordAggregate.HasTargetPhrase()\n		if err != nil || again {\n			return phraseEntity, err\n		}\n\n		err = wordAggregate.PointToPhrase(phraseEntity.GetPhrase())\n'))
b('C04o-eof',(C+'fact/storage.go','''func (s *Storage) ReadEntityByStory(story uint) (abstractFact.Entity, error) {

	position, _, err := s.storage.GetReference(story)
	if err != nil {''','''func (s *Storage) ReadEntityByStory(story uint) (abstractFact.Entity, error) {

	position, _, err := s.storage.GetReference(story)
	if err != nil && !errors.Is(err, io.EOF) {'''),(C+'fact/storage.go','import (','import (\n	"errors"\n	"io"\n'))
b('C04p-temporary',(C+'story/entity.go','	return e.storage.Connect(e.position, position)','	return lasting(e.storage.Connect(e.position, position))'),(C+'story/lasting.go',None,'''package story

import "errors"

// lasting ignores what a storage says will pass.
func lasting(err error) error {

	var t interface{ Temporary() bool }
	if errors.As(err, &t) && t.Temporary() {
		return nil
	}

	return err
}
'''))
b('C04q-emptyerr',(C+'class/node/remark.go','''	err = r.storage.Connect(identifier, r.identifier)
	if err != nil {''','''	err = r.storage.Connect(identifier, r.identifier)
	if err != nil && err.Error() != "" {'''))
b('C04r-fallthrough',(C+'remark/aggregate.go','''	detail, err := a.detailRepository.Provide(aggregateObject, property)
	if err != nil {
		return nil, err
	}

	err = detail.PointToRemark(remark.GetDetail())
	if err != nil {
		return nil, err
	}
''','''	detail, err := a.detailRepository.Provide(aggregateObject, property)
	if err != nil {
		return nil, err
	}

	attach := detail.PointToRemark(remark.GetDetail())
	_ = attach
	if err != nil {
		return nil, err
	}
'''))
b('C04s-resulterr',('output.go','''		hasNextRemark, err := factRemark.HasNextRemark()
		if err != nil {
			return "", err
		}
''','''		hasNextRemark, err := factRemark.HasNextRemark()
		if err != nil {
			return buffer.String(), nil
		}
'''))
b('C05n-grow',('output.go','		buffer.WriteString(object)\n','		buffer.Grow(len(object) - len(property))\n		buffer.WriteString(object)\n'))
b('C05o-lastzero',(C+'story/entity.go','''	if len(targets) != 1 {
		return 0, fmt.Errorf("story has wrong number of target trees''','''	if len(targets) > 1 {
		return 0, fmt.Errorf("story has wrong number of target trees'''))
b('C05p-makebig',(C+'remark/repository.go','	remark, err := r.remarkStorage.ReadEntityByClass(remarkIdentifier)\n','	_ = make([]uint, 0, int(remarkIdentifier))\n	remark, err := r.remarkStorage.ReadEntityByClass(remarkIdentifier)\n'))
b('C05q-zeroremark',('graph.go','''	aggregate, err := g.remarkRepository.GetRemark(remarkIdentifier)
	if err != nil {
		return Remark{}, err
	}
''','''	if remarkIdentifier == 0 {
		return Remark{}, nil
	}

	aggregate, err := g.remarkRepository.GetRemark(remarkIdentifier)
	if err != nil {
		return Remark{}, err
	}
'''))
b('C06i-unlink',(C+'fact/repository.go','	err = lastFact.PointToPosition(nextFact.GetPosition())\n','	if lastFact.GetPosition() != fact.GetPosition() {\n		err = lastFact.PointToRemark(firstRemark.GetFact())\n		if err != nil {\n			return nil, err\n		}\n	}\n\n	err = lastFact.PointToPosition(nextFact.GetPosition())\n'))
b('C07i-firstlink',(C+'story/entity.go','''func (e Entity) HasTargetPosition() (bool, error) {
''','''func (e Entity) HasTargetPosition() (bool, error) {

	if e.tree == e.position {
		_ = e.storage.SetReference(e.position, e.tree)
	}
'''))
b('C08k-evendir',(C+'class/node/fact.go','	err = f.storage.Connect(identifier, f.identifier)\n','	if identifier%2 == 0 && identifier > 1000 {\n		return identifier, f.storage.Connect(f.identifier, identifier)\n	}\n\n	err = f.storage.Connect(identifier, f.identifier)\n'))
b('C12h-skipfirst',(C+'fact/repository.go','	err = childStory.PointToFact(firstFact.GetStory())\n','	if len(siblingTrees) > 1 {\n		firstFact = fact\n	}\n\n	err = childStory.PointToFact(firstFact.GetStory())\n'))
b('C13k-firstprop',(C+'remark/aggregate.go','	aggregateObject, _, err := aggregateDetail.GetObjectAndProperty()\n','	aggregateObject, aggregateProperty, err := aggregateDetail.GetObjectAndProperty()\n'),(C+'remark/aggregate.go','	detail, err := a.detailRepository.Provide(aggregateObject, property)\n','	if len(property) == len(aggregateObject) {\n		aggregateObject = aggregateProperty\n	}\n\n	detail, err := a.detailRepository.Provide(aggregateObject, property)\n'))
b('C14l-twofromlast',(C+'fact/repository.go','		targetFact, err := lastFact.GetTargetFact()\n','		if lastFact.GetStory() != fact.GetStory() && lastFact.GetPosition() < fact.GetPosition() {\n			break\n		}\n\n		targetFact, err := lastFact.GetTargetFact()\n'))
b('C15k-oldest',(C+'fact/repository.go','r.storyRepository.FetchByTree(siblingTrees[0])','r.storyRepository.FetchByTree(siblingTrees[len(siblingTrees)/2])'))
b('C16i-format',('output.go','		buffer.WriteString(object)\n','		fmt.Fprintf(&buffer, object)\n'),('output.go','import "bytes"','import (\n	"bytes"\n	"fmt"\n)'))
b('C16j-stopsame',('output.go','		if !hasNextRemark {\n','		if !hasNextRemark || buffer.Len() > 1<<16 {\n'))
b('C17k-unique',(C+'fact/entity.go','	if len(targets) != 1 {\n		return 0, fmt.Errorf("fact has wrong number of target facts','	if len(targets) == 2 && targets[0] == targets[1] {\n		targets = targets[:1]\n	}\n\n	if len(targets) != 1 {\n		return 0, fmt.Errorf("fact has wrong number of target facts'))
b('C18k-facttarget',(C+'remark/repository.go','''	err = remark.PointToFact(fact.GetRemark())
	if err != nil {
		return nil, err
	}

	err = fact.PointToRemark(remark.GetFact())
	if err != nil {
		return nil, err
	}
''','''	err = fact.PointToRemark(remark.GetFact())
	if err != nil {
		return nil, err
	}

	err = remark.PointToFact(fact.GetRemark())
	if err != nil {
		return nil, err
	}
'''))
b('C18l-siblingearly',(C+'fact/repository.go','''	err = childStory.PointToTree(story.GetTree())
	if err != nil {
		return nil, err
	}

''',''),(C+'fact/repository.go','''	firstFact, err := r.factStorage.CreateEntity(classIdentifier)
''','''	err = childStory.PointToTree(story.GetTree())
	if err != nil {
		return nil, err
	}

	firstFact, err := r.factStorage.CreateEntity(classIdentifier)
'''))
b('C19l-onlyfirst',(C+'word/paths.go','''func (p *paths) collect(''','''var _ = 0

func (p *paths) collect('''),(C+'phrase/paths.go','	path := strings.Split(words, " ")\n','	path := strings.Split(strings.TrimRight(words, " ")+strings.Repeat(" ", len(words)%2), " ")\n'))
b('C20j-wrap',(C+'bit/repository.go','	if identifier == oneEntity.GetCharacter() {','	if identifier == oneEntity.GetCharacter() || identifier == oneEntity.class {'))
b('C24a-mark',(C+'word/storage.go','''	err = s.storage.SetReference(character, word)
	if err != nil {
		return nil, err
	}
''','''	err = s.storage.SetReference(character, word)
	if err != nil {
		_ = s.storage.SetReference(character, class)
		return nil, err
	}
'''))
b('C24b-late',(C+'detail/storage.go','''	err = objectPhrase.AddTargetDetail(phrase)
	if err != nil {
		return nil, err
	}

	err = propertyPhrase.AddSourceDetail(phrase)
	if err != nil {
		return nil, err
	}
''','''	for _, add := range []func(uint) error{objectPhrase.AddTargetDetail, propertyPhrase.AddSourceDetail} {
		if added := add(phrase); added != nil {
			err = added
		}
	}
	if err != nil {
		return nil, err
	}
'''))
b('C24e-batch',(C+'fact/storage.go','''	err = s.storage.SetReference(class, remark)
	if err != nil {
		return Entity{}, err
	}

	err = s.storage.SetReference(remark, position)
	if err != nil {
		return Entity{}, err
	}
''','''	var failure error
	for _, pair := range [][2]uint{{class, remark}, {remark, position}} {
		err = s.storage.SetReference(pair[0], pair[1])
		if err != nil {
			failure = err
			continue
		}
	}
	if failure != nil {
		return Entity{}, failure
	}
'''))
b('C24c-retry',(C+'class/node/story.go','''	identifier, err := s.storage.Create()
	if err != nil {
		return 0, err
	}
''','''	identifier, err := s.storage.Create()
	if err != nil {
		identifier, err = s.storage.Create()
	}
	if err != nil {
		return 0, err
	}
'''))
b('C24d-both',(C+'fact/repository.go','''	err = nextFact.PointToStory(story.GetFact())
	if err != nil {
		return nil, err
	}

	err = firstRemark.PointToFact(nextFact.GetRemark())
	if err != nil {
		return nil, err
	}
''','''	err = nextFact.PointToStory(story.GetFact())
	if e := firstRemark.PointToFact(nextFact.GetRemark()); err == nil {
		err = e
	}
	if err != nil {
		return nil, err
	}
'''))
b('C25a-retry',(C+'remark/entity.go','	return e.storage.Connect(e.fact, fact)','	for {\n		err := e.storage.Connect(e.fact, fact)\n		if err == nil {\n			return nil\n		}\n	}'))
b('C25b-same',(C+'phrase/aggregate.go','		wordValue, err := phraseElement.ExtractWordValue()\n		if err != nil {\n			return "", err\n		}\n\n		path','		wordValue, err := phraseElement.ExtractWordValue()\n		if err != nil {\n			return "", err\n		}\n\n		if wordValue == path[len(path)-1] {\n			phraseElement = a.phraseElements.CreateLastElement(a.phrase)\n			continue\n		}\n\n		path'))
b('C25c-parents',(C+'fact/aggregate.go','''	firstFactIdentifier, err := story.GetTargetFact()
''','''	for {
		hasTree, err := story.HasTargetTree()
		if err != nil {
			return nil, err
		}
		if !hasTree || story.GetFact() == storyIdentifier {
			break
		}
	}

	firstFactIdentifier, err := story.GetTargetFact()
'''))
b('C25d-index',(C+'detail/factory.go','''		for _, propertySourceDetail := range propertySourceDetails {
			if propertySourceDetail == objectTargetDetail {
				commonDetailIdentifiers = append(commonDetailIdentifiers, propertySourceDetail)
			}
		}
''','''		for i := 0; i < len(propertySourceDetails); {

			propertySourceDetail := propertySourceDetails[i]

			if propertySourceDetail == objectTargetDetail {
				commonDetailIdentifiers = append(commonDetailIdentifiers, propertySourceDetail)
				break
			}

			if propertySourceDetail < objectTargetDetail || len(propertySourceDetails) < 3 {
				i++
			} else if propertySourceDetail == propertySourceDetails[0] {
				i = 1
			}
		}
'''))
