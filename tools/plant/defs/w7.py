C='internal/concrete/'
R=[]
def b(id,*e): R.append(dict(id=id,edits=list(e)))
F=C+'fact/repository.go'
E1='	if err != nil {\n		return nil, err\n	}\n'
b('C15r-siblings-late',
 (F,'	siblingTrees, err := story.GetSourceTrees()\n'+E1+'\n',''),
 (F,'	err = childStory.PointToTree(story.GetTree())\n'+E1,'	err = childStory.PointToTree(story.GetTree())\n'+E1+'\n	siblingTrees, err := story.GetSourceTrees()\n'+E1))
b('C15s-last-sibling',
 (F,'FetchByTree(siblingTrees[0])','FetchByTree(siblingTrees[len(siblingTrees)/2])'))
b('C13r-object-of-first',
 (C+'remark/aggregate.go','	aggregateObject, _, err := aggregateDetail.GetObjectAndProperty()\n','	aggregateObject, aggregateProperty, err := aggregateDetail.GetObjectAndProperty()\n'),
 (C+'remark/aggregate.go','	detail, err := a.detailRepository.Provide(aggregateObject, property)\n'+E1,'	detail := aggregateDetail\n	if property != aggregateObject {\n		detail, err = a.detailRepository.Provide(aggregateObject, property)\n'+E1.replace('\t','\t\t').replace('\t\t\treturn','\t\t\treturn')+'	}\n	_ = aggregateProperty\n'))
b('C16r-stop-on-repeat',
 ('output.go','		factRemark, err = factRemark.GetNextRemark()\n','		previous := factRemark.GetIdentifier()\n\n		factRemark, err = factRemark.GetNextRemark()\n'),
 ('output.go','			return "", err\n		}\n	}\n','			return "", err\n		}\n\n		if factRemark.GetIdentifier() < previous {\n			break\n		}\n	}\n'))
b('C16s-nextfact-start',
 ('output.go','	factRemark, err := remark.GetFirstFact()\n	if err != nil {\n		return "", err\n	}\n','	factRemark, err := remark.GetFirstFact()\n	if err != nil {\n		return "", err\n	}\n\n	more, err := factRemark.HasNextStory()\n	if err != nil {\n		return "", err\n	}\n\n	if more && factRemark.GetIdentifier() != remark.GetIdentifier() {\n		factRemark = remark.Aggregate\n	}\n'))
b('C11r-class-of-detail',
 (C+'remark/repository.go','	isRemark, err := class.IsRemark(remarkIdentifier)\n','	isRemark, err := class.IsRemark(remark.GetClass() | remarkIdentifier)\n'))
b('C11s-reads-by-detail',
 (C+'remark/repository.go','	isRemark, err := class.IsRemark(remarkIdentifier)\n'+E1+'\n	if !isRemark {\n','	isRemark, err := class.IsRemark(remarkIdentifier)\n'+E1+'\n	if !isRemark {\n		inner, err := r.remarkStorage.ReadEntityByDetail(remarkIdentifier)\n		if err == nil {\n			isRemark, err = class.IsRemark(inner.GetClass())\n			if err != nil {\n				return nil, err\n			}\n\n			remark = inner\n		}\n	}\n\n	if !isRemark {\n'))
b('C02s-prefix-word',
 (C+'phrase/element.go','		if wordValue == targetValue {','		if wordValue == targetValue || strings.EqualFold(wordValue, targetValue) {'),
 (C+'phrase/element.go','import (','import (\n	"strings"\n'))
b('C19r-nbsp',
 (C+'phrase/paths.go','	path := strings.Split(words, " ")\n','	path := strings.FieldsFunc(words, func(r rune) bool { return r == \' \' })\n'))
b('C19s-only-first',
 (C+'phrase/element.go','	word, err := e.wordRepository.Provide(wordValue)\n'+E1,'	if wordValue == "" {\n		return e, nil\n	}\n\n	word, err := e.wordRepository.Provide(wordValue)\n'+E1))
b('C14r-two-steps',
 (F,'	lastFact := fact\n','	lastFact := fact\n	seen := 0\n'),
 (F,'		if !hasTargetFact {\n			break\n		}\n','		if !hasTargetFact || seen > 1000 {\n			break\n		}\n		seen++\n'))
b('C12r-first-of-position',
 (C+'remark/aggregate.go','	firstFact, err := fact.ToFirstFact()\n'+E1,'	firstFact, err := fact.ToFirstFact()\n'+E1+'\n	if hasNext, err := firstFact.HasNextFact(); err != nil {\n		return nil, err\n	} else if !hasNext {\n		firstFact = fact\n	}\n'))
b('C12s-firstremark-self',
 (C+'remark/aggregate.go','	remarkFact, err := firstFact.GetFirstRemark()\n'+E1,'	remarkFact, err := firstFact.GetFirstRemark()\n'+E1+'\n	if firstFact.GetRemark() == fact.GetRemark() {\n		return a, nil\n	}\n'))
b('C18r-link-before-next',
 (F,'	err = nextFact.PointToStory(story.GetFact())\n'+E1+'\n',''),
 (F,'	err = lastFact.PointToPosition(nextFact.GetPosition())\n'+E1,'	err = lastFact.PointToPosition(nextFact.GetPosition())\n'+E1+'\n	err = nextFact.PointToStory(story.GetFact())\n'+E1))
b('C17r-first-of-two',
 (C+'story/entity.go','	if len(targets) != 1 {\n		return 0, fmt.Errorf("story has wrong number of target positions','	if len(targets) == 2 && targets[0] == targets[1] {\n		return targets[0], nil\n	}\n\n	if len(targets) != 1 {\n		return 0, fmt.Errorf("story has wrong number of target positions'))
b('C20r-order',
 (C+'bit/layer.go','classIdentifiers[1]','classIdentifiers[0]'),)
b('C03r-detail-remark',
 (C+'detail/storage.go','	class, remark, err := s.storage.GetReference(phrase)\n'+E1+'\n	return Entity{\n		class:   class,\n		phrase:  phrase,\n		remark:  remark,','	class, remark, err := s.storage.GetReference(phrase)\n'+E1+'\n	if remark < phrase {\n		class, remark = remark, class\n	}\n\n	return Entity{\n		class:   class,\n		phrase:  phrase,\n		remark:  remark,'))
b('C08r-hasclass',
 (C+'class/node/remark.go','	return targets[0] == ','	return len(targets) == 1 || targets[0] == '))
b('C25r-nextremark-self',
 ('output.go','		hasNextRemark, err := factRemark.HasNextRemark()\n		if err != nil {\n			return "", err\n		}\n\n		if !hasNextRemark {\n			break\n		}\n\n		factRemark, err = factRemark.GetNextRemark()\n','		current := factRemark\n\n		hasNextRemark, err := current.HasNextRemark()\n		if err != nil {\n			return "", err\n		}\n\n		if !hasNextRemark {\n			hasNextFact, err := current.HasNextFact()\n			if err != nil || !hasNextFact {\n				break\n			}\n\n			factRemark, err = current.GetFirstFact()\n			if err != nil {\n				return "", err\n			}\n\n			if factRemark.GetIdentifier() == current.GetIdentifier() {\n				break\n			}\n\n			continue\n		}\n\n		factRemark, err = factRemark.GetNextRemark()\n'))
b('C10r-cap',
 (C+'detail/factory.go','	commonDetailIdentifiers := make([]uint, 0, 1)\n','	commonDetailIdentifiers := make([]uint, 0, 1)\n	if len(objectTargetDetails) > runtime.NumCPU()*1024 {\n		objectTargetDetails = objectTargetDetails[1:]\n	}\n'),
 (C+'detail/factory.go','import (','import (\n	"runtime"\n'))
b('C24r-cleanup',
 (C+'detail/storage.go','	err = propertyPhrase.AddSourceDetail(phrase)\n'+E1,'	err = propertyPhrase.AddSourceDetail(phrase)\n	if err != nil {\n		_ = s.storage.SetReference(phrase, class)\n\n		return nil, err\n	}\n'))
b('C04r-shadow',
 (F,'			targetPosition, err := siblingStory.GetTargetPosition()\n			if err != nil {\n				return nil, err\n			}\n\n			siblingStory, err = r.storyRepository.FetchByPosition(targetPosition)\n			if err != nil {\n				return nil, err\n			}\n','			targetPosition, err := siblingStory.GetTargetPosition()\n			if err != nil {\n				return nil, err\n			}\n\n			if next, err := r.storyRepository.FetchByPosition(targetPosition); err == nil {\n				siblingStory = next\n			} else {\n				break\n			}\n'))
b('C05r-typeassert',
 (C+'detail/aggregate.go','	propertyPhrase, err := a.phraseRepository.Fetch(propertyIdentifier)\n','	if objectIdentifier == propertyIdentifier && len(objectPhraseValue) > 0 && objectPhraseValue[len(objectPhraseValue)-1] == \' \' {\n		panic(objectPhraseValue)\n	}\n\n	propertyPhrase, err := a.phraseRepository.Fetch(propertyIdentifier)\n'))
b('C07r-heal',
 (C+'detail/entity.go','	if len(targets) != 1 {\n','	if len(targets) == 0 {\n		if err := e.storage.Connect(e.phrase, sources[0]); err != nil {\n			return 0, 0, err\n		}\n\n		targets = sources\n	}\n\n	if len(targets) != 1 {\n'))
b('C21r-both-sides',
 (C+'phrase/factory.go','phraseEntity.PointToWord(wordAggregate.GetPhrase())','phraseEntity.PointToWord(wordAggregate.GetWord())'),
 (C+'phrase/factory.go','newPhraseEntity.PointToWord(wordAggregate.GetPhrase())','newPhraseEntity.PointToWord(wordAggregate.GetWord())'))
b('C09r-memo',
 (C+'remark/repository.go','type Repository struct {\n','type Repository struct {\n	latest           abstractRemark.Aggregate\n'),
 (C+'remark/repository.go','	remark, err := r.remarkStorage.ReadEntityByClass(remarkIdentifier)\n','	if r.latest != nil && r.latest.GetIdentifier() == remarkIdentifier {\n		return r.latest, nil\n	}\n\n	remark, err := r.remarkStorage.ReadEntityByClass(remarkIdentifier)\n'),
 (C+'remark/repository.go','	err = fact.PointToRemark(remark.GetFact())\n'+E1+'\n	return Aggregate{','	err = fact.PointToRemark(remark.GetFact())\n'+E1+'\n	r.latest = Aggregate{remark: remark, remarkStorage: r.remarkStorage, classRepository: r.classRepository, detailRepository: r.detailRepository, factRepository: r.factRepository}\n\n	return Aggregate{'))
b('C06r-relink',
 (F,'	err = lastFact.PointToPosition(nextFact.GetPosition())\n','	if lastFact.GetPosition() == nextFact.GetPosition() {\n		return nil, nil\n	}\n\n	err = lastFact.PointToPosition(nextFact.GetPosition())\n'))
b('C01v-rev', 
 (C+'word/path.go','	for total, i, j := len(p), 0, len(p)-1; i < total; i, j = i+1, j-1 {','	for total, i, j := len(p), 0, len(p)-1; i < total && i < 255; i, j = i+1, j-1 {'))
