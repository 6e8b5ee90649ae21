C='internal/concrete/'
R=[
# C09
dict(id='C09a-memfirst', edits=[(C+'story/repository.go','	classRepository abstractClass.Repository\n}','	classRepository abstractClass.Repository\n\tlast            abstractStory.Entity\n}'),(C+'story/repository.go','''	return story, nil''','''	if r.last != nil && r.last.GetClass() == classIdentifier {
		return r.last, nil
	}
	r.last = story

	return story, nil'''),],),
dict(id='C09b-cachechild', edits=[(C+'fact/repository.go','	storyRepository abstractStory.Repository\n}','	storyRepository abstractStory.Repository\n\tlastChild       map[uint]uint\n}'),
 (C+'fact/repository.go','		storyRepository: storyRepository,\n	}\n}','		storyRepository: storyRepository,\n\t\tlastChild:       map[uint]uint{},\n	}\n}'),
 (C+'fact/repository.go','''	siblingTrees, err := story.GetSourceTrees()
	if err != nil {
		return nil, err
	}
''','''	var siblingTrees []uint
	if last, ok := r.lastChild[story.GetTree()]; ok {
		siblingTrees = []uint{last}
	}
'''),(C+'fact/repository.go','''	if len(siblingTrees) != 0 {
''','''	r.lastChild[story.GetTree()] = childStory.GetTree()

	if len(siblingTrees) != 0 {
''')]),
dict(id='C09c-bits', edits=[(C+'bit/layer.go','		case 2:\n\n			var zero','		case 2, 4:\n\n			var zero') ,]),
dict(id='C09d-recreate', edits=[(C+'class/repository.go','		if !hasFirstNode {','		if !hasFirstNode || false {')]),
dict(id='C09e-isinit', edits=[(C+'bit/layer.go','		l.isInitialized = true\n','		l.isInitialized = len(classIdentifiers) == 2\n')]),
dict(id='C09f-cachechar', edits=[(C+'character/repository.go','	paths             *paths\n}','	paths             *paths\n\tknown             map[rune]abstractCharacter.Entity\n}'),
 (C+'character/repository.go','		paths:             newPaths(),','		paths:             newPaths(),\n\t\tknown:             map[rune]abstractCharacter.Entity{},'),
 (C+'character/repository.go','''	path, err := r.paths.collect(integer)''','''	if entity, ok := r.known[integer]; ok {
		return Aggregate{
			character:         entity,
			characterElements: r.characterElements,
			paths:             r.paths,
		}, nil
	}

	path, err := r.paths.collect(integer)'''),
 (C+'character/repository.go','''	return Aggregate{
		character:         characterElement.GetEntity(),''','''	r.known[integer&0xffff] = characterElement.GetEntity()

	return Aggregate{
		character:         characterElement.GetEntity(),''')]),
# C10
dict(id='C10a-global', edits=[(C+'word/paths.go','type paths struct{}','var last path\n\ntype paths struct{}'),(C+'word/paths.go','''	path := []rune(word)''','''	path := append(last[:0], []rune(word)...)
	last = path''')]),
dict(id='C10b-map', edits=[(C+'detail/factory.go','''	for _, objectTargetDetail := range objectTargetDetails {
		for _, propertySourceDetail := range propertySourceDetails {
			if propertySourceDetail == objectTargetDetail {
				commonDetailIdentifiers = append(commonDetailIdentifiers, propertySourceDetail)
			}
		}
	}
''','''	objects := make(map[uint]bool)
	for _, objectTargetDetail := range objectTargetDetails {
		objects[objectTargetDetail] = true
	}
	for object := range objects {
		for _, propertySourceDetail := range propertySourceDetails {
			if propertySourceDetail == object {
				commonDetailIdentifiers = append(commonDetailIdentifiers, propertySourceDetail)
			}
		}
	}
	if len(commonDetailIdentifiers) > 1 {
		commonDetailIdentifiers = commonDetailIdentifiers[:1]
	}
''')]),
dict(id='C10c-env', edits=[('output.go','import "bytes"','import (\n\t"bytes"\n\t"os"\n)'),('output.go','		buffer.WriteString(property)\n		buffer.WriteString(" ")','		buffer.WriteString(property)\n		if os.Getenv("SEMNET_COMPACT") == "" {\n\t\t\tbuffer.WriteString(" ")\n\t\t}')]),
dict(id='C10d-once', edits=[(C+'class/repository.go','func NewRepository','var shared = map[storage]*Repository{}\n\nfunc NewRepository'),(C+'class/repository.go','''	return &Repository{
		storage:       storage,
		isInitialized: false,
		entity:        Entity{},
	}''','''	if r, ok := shared[storage]; ok {
		return r
	}
	shared[storage] = &Repository{
		storage:       storage,
		isInitialized: false,
		entity:        Entity{},
	}
	return shared[storage]''')]),
dict(id='C10e-time', edits=[(C+'fact/repository.go','	lastFact := fact\n','	deadline := time.Now().Add(time.Second)\n\tlastFact := fact\n'),(C+'fact/repository.go','		if !hasTargetFact {','		if !hasTargetFact || time.Now().After(deadline) {'),(C+'fact/repository.go','import (','import (\n\t"time"')]),
# C11
dict(id='C11a-nocheck', edits=[(C+'remark/repository.go','	if !isRemark {','	if !isRemark && remark.GetFact() == 0 {')]),
dict(id='C11b-isfact', edits=[(C+'remark/repository.go','class.IsRemark(remarkIdentifier)','class.IsRemark(remark.GetClass() + 0*remarkIdentifier)')]),
dict(id='C11c-id', edits=[(C+'remark/aggregate.go','return a.remark.GetClass()','return a.remark.GetDetail()')]),
dict(id='C11d-bydetail', edits=[(C+'remark/repository.go','r.remarkStorage.ReadEntityByClass(remarkIdentifier)','r.remarkStorage.ReadEntityByDetail(remarkIdentifier)')]),
dict(id='C11e-orfact', edits=[(C+'remark/repository.go','''	if !isRemark {
''','''	if !isRemark {
		isRemark, err = class.IsFact(remarkIdentifier)
		if err != nil {
			return nil, err
		}
	}

	if !isRemark {
''')]),
# C12
dict(id='C12a-own', edits=[(C+'remark/aggregate.go','''	firstFact, err := fact.ToFirstFact()
	if err != nil {
		return nil, err
	}
''','''	firstFact := fact
	hasNextFact, err := fact.HasNextFact()
	if err != nil {
		return nil, err
	}

	if hasNextFact {
		firstFact, err = fact.ToFirstFact()
		if err != nil {
			return nil, err
		}
	}
''')]),
dict(id='C12b-parent', edits=[(C+'fact/aggregate.go','''	firstFactIdentifier, err := story.GetTargetFact()
	if err != nil {
		return nil, err
	}
''','''	hasTree, err := story.HasTargetTree()
	if err != nil {
		return nil, err
	}

	if hasTree {
		tree, err := story.GetTargetTree()
		if err != nil {
			return nil, err
		}

		story, err = a.storyRepository.FetchByTree(tree)
		if err != nil {
			return nil, err
		}
	}

	firstFactIdentifier, err := story.GetTargetFact()
	if err != nil {
		return nil, err
	}
''')]),
dict(id='C12c-nextfactstory', edits=[(C+'fact/repository.go','	err = nextFact.PointToStory(story.GetFact())','	err = nextFact.PointToStory(fact.GetStory())')]),
# C13
dict(id='C13a-prop', edits=[(C+'remark/aggregate.go','aggregateObject, _, err := aggregateDetail.GetObjectAndProperty()','_, aggregateObject, err := aggregateDetail.GetObjectAndProperty()')]),
dict(id='C13b-first', edits=[(C+'remark/aggregate.go','''	err = remark.PointToFact(fact.GetRemark())
	if err != nil {
		return nil, err
	}

	return Aggregate{''','''	fact, err = fact.ToFirstFact()
	if err != nil {
		return nil, err
	}

	err = remark.PointToFact(fact.GetRemark())
	if err != nil {
		return nil, err
	}

	return Aggregate{''')]),
dict(id='C13c-start', edits=[(C+'remark/aggregate.go','''	err = remark.PointToFact(fact.GetRemark())
	if err != nil {
		return nil, err
	}

	return Aggregate{''','''	err = remark.PointToFact(fact.GetRemark())
	if err != nil {
		return nil, err
	}

	err = fact.PointToRemark(remark.GetFact())
	if err != nil {
		return nil, err
	}

	return Aggregate{''')]),
dict(id='C13d-reuse', edits=[(C+'remark/aggregate.go','''	aggregateObject, _, err := aggregateDetail.GetObjectAndProperty()
	if err != nil {
		return nil, err
	}
''','''	aggregateObject, aggregateProperty, err := aggregateDetail.GetObjectAndProperty()
	if err != nil {
		return nil, err
	}

	if aggregateProperty == property {
		return a, nil
	}
''')]),
# C14
dict(id='C14a-afterthis', edits=[(C+'fact/repository.go','	err = lastFact.PointToPosition(nextFact.GetPosition())','	err = fact.PointToPosition(nextFact.GetPosition())')]),
dict(id='C14b-first', edits=[(C+'fact/repository.go','	lastFact := fact\n	for {','	lastFact := fact\n	for i := 0; i < 1000; i++ {')]),
dict(id='C14c-has', edits=[(C+'fact/entity.go','return len(targets) != 0, nil','return len(targets) > 0 && targets[0] > e.position+16, nil')]),
dict(id='C14d-ret', edits=[(C+'remark/aggregate.go','''	_, err = a.factRepository.CreateNextFact(factIdentifier, remark)
	if err != nil {
		return nil, err
	}

	return Aggregate{
		remark:           remark,''','''	_, err = a.factRepository.CreateNextFact(factIdentifier, remark)
	if err != nil {
		return nil, err
	}

	return Aggregate{
		remark:           a.remark,''')]),
dict(id='C14e-order', edits=[(C+'remark/aggregate.go','''	detail, err := a.detailRepository.Provide(object, property)
	if err != nil {
		return nil, err
	}

	err = detail.PointToRemark(remark.GetDetail())
	if err != nil {
		return nil, err
	}

	// fact

	factIdentifier, err := a.remark.GetTargetFact()
	if err != nil {
		return nil, err
	}

	_, err = a.factRepository.CreateNextFact''','''	detail, err := a.detailRepository.Provide(property, object)
	if err != nil {
		return nil, err
	}

	err = detail.PointToRemark(remark.GetDetail())
	if err != nil {
		return nil, err
	}

	// fact

	factIdentifier, err := a.remark.GetTargetFact()
	if err != nil {
		return nil, err
	}

	_, err = a.factRepository.CreateNextFact''')]),
# C15
dict(id='C15a-parent', edits=[(C+'fact/repository.go','	err = childStory.PointToTree(story.GetTree())','''	parentStory := story
	hasTargetTree, err := story.HasTargetTree()
	if err != nil {
		return nil, err
	}

	if hasTargetTree {
		targetTree, err := story.GetTargetTree()
		if err != nil {
			return nil, err
		}

		parentStory, err = r.storyRepository.FetchByTree(targetTree)
		if err != nil {
			return nil, err
		}
	}

	err = childStory.PointToTree(parentStory.GetTree())''')]),
dict(id='C15b-last', edits=[(C+'fact/repository.go','siblingTrees[0]','siblingTrees[len(siblingTrees)/2]')]),
dict(id='C15c-nowalk', edits=[(C+'fact/repository.go','			if !hasTargetPosition {','			if !hasTargetPosition || len(siblingTrees) > 9 {')]),
dict(id='C15d-after', edits=[(C+'fact/repository.go','''	siblingTrees, err := story.GetSourceTrees()
	if err != nil {
		return nil, err
	}

	childStory, err := r.storyRepository.CreateStory()
	if err != nil {
		return nil, err
	}
''','''	childStory, err := r.storyRepository.CreateStory()
	if err != nil {
		return nil, err
	}

	err = childStory.PointToTree(story.GetTree())
	if err != nil {
		return nil, err
	}

	siblingTrees, err := story.GetSourceTrees()
	if err != nil {
		return nil, err
	}
'''),(C+'fact/repository.go','''	err = firstFact.PointToRemark(firstRemark.GetFact())
	if err != nil {
		return nil, err
	}

	err = childStory.PointToTree(story.GetTree())
	if err != nil {
		return nil, err
	}
''','''	err = firstFact.PointToRemark(firstRemark.GetFact())
	if err != nil {
		return nil, err
	}
'''),(C+'fact/repository.go','if len(siblingTrees) != 0 {','if len(siblingTrees) != 1 {')]),
# C16
dict(id='C16a-start', edits=[('output.go','	factRemark, err := remark.GetFirstFact()','	factRemark, err := remark.GetNextFact()')]),
dict(id='C16b-trim', edits=[('output.go','return buffer.String(), nil','return strings.TrimSuffix(buffer.String(), " "), nil'),('output.go','import "bytes"','import (\n\t"bytes"\n\t"strings"\n)')]),
dict(id='C16c-sameobj', edits=[('output.go','''		buffer.WriteString(object)
		buffer.WriteString(" ")
''','''		if object != lastObject {
			buffer.WriteString(object)
			buffer.WriteString(" ")
			lastObject = object
		}
'''),('output.go','	var buffer bytes.Buffer\n','	var buffer bytes.Buffer\n\tvar lastObject string\n')]),
# C17
dict(id='C17a-two', edits=[(C+'story/entity.go','''	if len(targets) != 1 {
		return 0, fmt.Errorf("story has wrong number of target trees")''','''	if len(targets) == 0 {
		return 0, fmt.Errorf("story has wrong number of target trees")''')]),
dict(id='C17b-default', edits=[(C+'word/entity.go','''	default:
		return false, fmt''','''	case 2:
		return targets[0] == targets[1], nil
	default:
		return false, fmt''')]),
dict(id='C17c-node', edits=[(C+'class/node/remark.go','if len(targets) != 1 {','if len(targets) > 2 || len(targets) == 0 {')]),
# C18
dict(id='C18a-order', edits=[(C+'character/factory.go','''		err = characterEntity.PointToBit(bitEntity.GetCharacter())
		if err != nil {
			return nil, err
		}

		err = bitEntity.PointToCharacter(characterEntity.GetBit())
		if err != nil {
			return nil, err
		}
''','''		err = bitEntity.PointToCharacter(characterEntity.GetBit())
		if err != nil {
			return nil, err
		}

		err = characterEntity.PointToBit(bitEntity.GetCharacter())
		if err != nil {
			return nil, err
		}
''')]),
dict(id='C18b-detail', edits=[(C+'detail/storage.go','''	err = s.storage.SetReference(phrase, remark)
	if err != nil {
		return nil, err
	}

	err = objectPhrase.AddTargetDetail(phrase)
	if err != nil {
		return nil, err
	}
''','''	err = objectPhrase.AddTargetDetail(phrase)
	if err != nil {
		return nil, err
	}

	err = s.storage.SetReference(phrase, remark)
	if err != nil {
		return nil, err
	}
''')]),
dict(id='C18c-nextfact', edits=[(C+'fact/repository.go','''	err = nextFact.PointToRemark(firstRemark.GetFact())
	if err != nil {
		return nil, err
	}

	lastFact := fact''','''	lastFact := fact'''),(C+'fact/repository.go','''	err = lastFact.PointToPosition(nextFact.GetPosition())
	if err != nil {
		return nil, err
	}
''','''	err = lastFact.PointToPosition(nextFact.GetPosition())
	if err != nil {
		return nil, err
	}

	err = nextFact.PointToRemark(firstRemark.GetFact())
	if err != nil {
		return nil, err
	}
''')]),
# C19
dict(id='C19a-trim', edits=[(C+'phrase/paths.go','strings.Split(words, " ")','strings.Split(strings.TrimSpace(words), " ")')]),
dict(id='C19b-fields', edits=[(C+'phrase/paths.go','path := strings.Split(words, " ")','path := strings.Fields(words)')]),
dict(id='C19c-skip', edits=[(C+'phrase/repository.go','	for _, wordValue := range path[1:] {\n','	for i, wordValue := range path[1:] {\n\n\t\tif wordValue == "" && i > 0 {\n\t\t\tcontinue\n\t\t}\n')]),
dict(id='C19d-toolong', edits=[(C+'word/paths.go','if len(path) < 1 {','if len(path) < 1 || len(path) > 255 {')]),
# C20
dict(id='C20a-cmp', edits=[(C+'bit/repository.go','if identifier == oneEntity.GetCharacter() {','if identifier > zeroEntity.GetCharacter() {')]),
dict(id='C20b-order', edits=[(C+'bit/layer.go','''			if classIdentifiers[0] < classIdentifiers[1] {''','''			if classIdentifiers[0] != classIdentifiers[1] {''',1)]),
dict(id='C20c-count', edits=[(C+'bit/layer.go','		default:\n			return','		case 3:\n\t\t\treturn l.zeroEntity, l.oneEntity, nil\n\n		default:\n			return')]),
# C21
dict(id='C21a-dir', edits=[(C+'fact/repository.go','	err = lastFact.PointToPosition(nextFact.GetPosition())','	err = nextFact.PointToPosition(lastFact.GetPosition())')]),
dict(id='C21b-swapclass', edits=[(C+'class/repository.go','	factIdentifier\n	storyIdentifier\n','	storyIdentifier\n	factIdentifier\n')]),
dict(id='C21c-bits', edits=[(C+'character/aggragate.go','range path.reverse()','range path'),(C+'character/paths.go',"		bitValues[i] = bitName == '1'","		bitValues[len(bitNames)-1-i] = bitName == '1'")]),
dict(id='C21d-dirboth', edits=[(C+'story/entity.go','return e.storage.Connect(e.tree, tree)','return e.storage.Connect(tree, e.tree)'),(C+'story/entity.go','targets, err := e.storage.ReadTargets(e.tree)','targets, err := e.storage.ReadSources(e.tree)','all'),(C+'story/entity.go','sources, err := e.storage.ReadSources(e.tree)','sources, err := e.storage.ReadTargets(e.tree)','all'),(C+'story/entity.go','return e.storage.ReadSources(e.tree)','return e.storage.ReadTargets(e.tree)')]),
]
