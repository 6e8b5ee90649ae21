C='internal/concrete/'
R=[]
def r(id,*edits): R.append(dict(id=id,edits=list(edits)))
FR=C+'fact/repository.go'
loopF='''	lastFact := fact
	for {
		hasTargetFact, err := lastFact.HasTargetFact()
		if err != nil {
			return nil, err
		}

		if !hasTargetFact {
			break
		}

		targetFact, err := lastFact.GetTargetFact()
		if err != nil {
			return nil, err
		}

		lastFact, err = r.factStorage.ReadEntityByPosition(targetFact)
		if err != nil {
			return nil, err
		}
	}
'''
sib='''		siblingStory, err := r.storyRepository.FetchByTree(siblingTrees[0])
		if err != nil {
			return nil, err
		}

		for {
			hasTargetPosition, err := siblingStory.HasTargetPosition()
			if err != nil {
				return nil, err
			}

			if !hasTargetPosition {
				break
			}

			targetPosition, err := siblingStory.GetTargetPosition()
			if err != nil {
				return nil, err
			}

			siblingStory, err = r.storyRepository.FetchByPosition(targetPosition)
			if err != nil {
				return nil, err
			}
		}
'''
r('r01-last-fact-helper',(FR,loopF,'''	lastFact, err := r.findLastFact(fact)
	if err != nil {
		return nil, err
	}
'''),(FR,'func (r *Repository) CreateChildStoryFact','''func (r *Repository) findLastFact(fact abstractFact.Entity) (abstractFact.Entity, error) {
	for {
		hasNext, err := fact.HasTargetFact()
		if err != nil {
			return nil, err
		}
		if !hasNext {
			return fact, nil
		}
		next, err := fact.GetTargetFact()
		if err != nil {
			return nil, err
		}
		fact, err = r.factStorage.ReadEntityByPosition(next)
		if err != nil {
			return nil, err
		}
	}
}

func (r *Repository) CreateChildStoryFact'''))
r('r02-last-sibling-helper',(FR,sib,'''		siblingStory, err := r.lastSibling(siblingTrees[0])
		if err != nil {
			return nil, err
		}
'''),(FR,'func (r *Repository) CreateChildStoryFact','''func (r *Repository) lastSibling(tree uint) (abstractStory.Entity, error) {
	story, err := r.storyRepository.FetchByTree(tree)
	if err != nil {
		return nil, err
	}
	hasNext, err := story.HasTargetPosition()
	if err != nil {
		return nil, err
	}
	for hasNext {
		next, err := story.GetTargetPosition()
		if err != nil {
			return nil, err
		}
		story, err = r.storyRepository.FetchByPosition(next)
		if err != nil {
			return nil, err
		}
		hasNext, err = story.HasTargetPosition()
		if err != nil {
			return nil, err
		}
	}
	return story, nil
}

func (r *Repository) CreateChildStoryFact'''))
r('r03-fact-for-header',(FR,loopF,'''	lastFact := fact
	hasTargetFact, err := lastFact.HasTargetFact()
	for ; err == nil && hasTargetFact; hasTargetFact, err = lastFact.HasTargetFact() {
		var targetFact uint
		targetFact, err = lastFact.GetTargetFact()
		if err != nil {
			return nil, err
		}
		lastFact, err = r.factStorage.ReadEntityByPosition(targetFact)
		if err != nil {
			return nil, err
		}
	}
	if err != nil {
		return nil, err
	}
'''))
r('r04-fact-recursion',(FR,loopF,'''	lastFact, err := r.follow(fact)
	if err != nil {
		return nil, err
	}
'''),(FR,'func (r *Repository) CreateChildStoryFact','''func (r *Repository) follow(fact abstractFact.Entity) (abstractFact.Entity, error) {
	hasNext, err := fact.HasTargetFact()
	if err != nil {
		return nil, err
	}
	if !hasNext {
		return fact, nil
	}
	next, err := fact.GetTargetFact()
	if err != nil {
		return nil, err
	}
	nextFact, err := r.factStorage.ReadEntityByPosition(next)
	if err != nil {
		return nil, err
	}
	return r.follow(nextFact)
}

func (r *Repository) CreateChildStoryFact'''))
RA=C+'remark/aggregate.go'
ret='''	return Aggregate{
		remark:           %s,
		remarkStorage:    a.remarkStorage,
		classRepository:  a.classRepository,
		detailRepository: a.detailRepository,
		factRepository:   a.factRepository,
	}, nil
'''
gf='''	factIdentifier, err := a.remark.GetTargetFact()
	if err != nil {
		return %s, err
	}

	fact, err := a.factRepository.FetchByRemark(factIdentifier)
	if err != nil {
		return %s, err
	}
'''
r('r05-remark-helpers',(RA,ret%'remark','	return a.with(remark), nil\n','all'),(RA,ret%'nextRemark','	return a.with(nextRemark), nil\n','all'),
 (RA,gf%('nil','nil'),'''	fact, err := a.fetchFact()
	if err != nil {
		return nil, err
	}
''','all'),(RA,gf%('false','false'),'''	fact, err := a.fetchFact()
	if err != nil {
		return false, err
	}
''','all'),(RA,'func (a Aggregate) GetIdentifier','''func (a Aggregate) with(remark abstractRemark.Entity) Aggregate {
	next := a
	next.remark = remark
	return next
}

func (a Aggregate) fetchFact() (abstractFact.Aggregate, error) {
	identifier, err := a.remark.GetTargetFact()
	if err != nil {
		return nil, err
	}
	return a.factRepository.FetchByRemark(identifier)
}

func (a Aggregate) GetIdentifier'''))
r('r06-output-flag',('output.go','@func (o *Output) GetStory','''func (o *Output) GetStory(remark Remark) (string, error) {
	current, err := remark.GetFirstFact()
	if err != nil {
		return "", err
	}

	var buffer bytes.Buffer

	for hasNext := true; hasNext; {
		object, property, err := current.GetObjectAndProperty()
		if err != nil {
			return "", err
		}

		buffer.WriteString(object + " " + property + " ")

		hasNext, err = current.HasNextRemark()
		if err != nil {
			return "", err
		}

		if hasNext {
			current, err = current.GetNextRemark()
			if err != nil {
				return "", err
			}
		}
	}

	return buffer.String(), nil
}'''))
r('r07-output-builder',('output.go','import "bytes"','import (\n\t"fmt"\n\t"strings"\n)'),('output.go','var buffer bytes.Buffer','var buffer strings.Builder'),('output.go','''		buffer.WriteString(object)
		buffer.WriteString(" ")
		buffer.WriteString(property)
		buffer.WriteString(" ")
''','''		fmt.Fprintf(&buffer, "%s %s ", object, property)
'''))
r('r08-output-concat',('output.go','import "bytes"\n',''),('output.go','var buffer bytes.Buffer','text := ""'),('output.go','''		buffer.WriteString(object)
		buffer.WriteString(" ")
		buffer.WriteString(property)
		buffer.WriteString(" ")
''','''		text += object + " "
		text += property + " "
'''),('output.go','buffer.String()','text'))
CR=C+'class/repository.go'
r('r09-class-loop',(CR,'@func (r *Repository) ProvideEntity','''func (r *Repository) ProvideEntity() (class.Entity, error) {

	if !r.isInitialized {
		hasFirstNode, err := r.storage.Has(1)
		if err != nil {
			return Entity{}, err
		}

		if !hasFirstNode {
			names := []string{"bit", "character", "word", "phrase", "detail", "position", "fact", "story"}
			for i, name := range names {
				expected := uint(i) + bitIdentifier
				result, err := r.storage.Create()
				if err != nil {
					return Entity{}, err
				}
				if result != expected {
					return Entity{}, fmt.Errorf("wrong %s class node %d", name, result)
				}
				if i > 0 {
					err = r.storage.SetReference(expected-1, expected)
					if err != nil {
						return Entity{}, err
					}
				}
			}
		}

		r.entity = newEntity(
			node.NewBit(bitIdentifier, r.storage),
			node.NewCharacter(characterIdentifier, r.storage),
			node.NewWord(wordIdentifier, r.storage),
			node.NewPhrase(phraseIdentifier, r.storage),
			node.NewDetail(detailIdentifier, r.storage),
			node.NewRemark(remarkIdentifier, r.storage),
			node.NewFact(factIdentifier, r.storage),
			node.NewStory(storyIdentifier, r.storage),
		)
	}

	return r.entity, nil
}'''))
r('r10-class-helper',(CR,'@func (r *Repository) ProvideEntity','''func (r *Repository) ProvideEntity() (class.Entity, error) {

	if r.isInitialized {
		return r.entity, nil
	}

	hasFirstNode, err := r.storage.Has(bitIdentifier)
	if err != nil {
		return Entity{}, err
	}

	if !hasFirstNode {
		err = r.createNodes()
		if err != nil {
			return Entity{}, err
		}
	}

	r.entity = newEntity(
		node.NewBit(bitIdentifier, r.storage),
		node.NewCharacter(characterIdentifier, r.storage),
		node.NewWord(wordIdentifier, r.storage),
		node.NewPhrase(phraseIdentifier, r.storage),
		node.NewDetail(detailIdentifier, r.storage),
		node.NewRemark(remarkIdentifier, r.storage),
		node.NewFact(factIdentifier, r.storage),
		node.NewStory(storyIdentifier, r.storage),
	)
	r.isInitialized = true

	return r.entity, nil
}

type classNode struct {
	identifier uint
	name       string
}

func (r *Repository) createNodes() error {
	nodes := []classNode{
		{bitIdentifier, "bit"},
		{characterIdentifier, "character"},
		{wordIdentifier, "word"},
		{phraseIdentifier, "phrase"},
		{detailIdentifier, "detail"},
		{remarkIdentifier, "position"},
		{factIdentifier, "fact"},
		{storyIdentifier, "story"},
	}

	previous := uint(0)
	for _, n := range nodes {
		result, err := r.storage.Create()
		if err != nil {
			return err
		}
		if result != n.identifier {
			return fmt.Errorf("wrong %s class node %d", n.name, result)
		}
		if previous != 0 {
			if err := r.storage.SetReference(previous, n.identifier); err != nil {
				return err
			}
		}
		previous = n.identifier
	}
	return nil
}'''))
r('r11-class-helper2',(CR,'@func (r *Repository) ProvideEntity','''func (r *Repository) ProvideEntity() (class.Entity, error) {

	if !r.isInitialized {
		hasFirstNode, err := r.storage.Has(1)
		if err != nil {
			return Entity{}, err
		}

		if !hasFirstNode {
			err = r.createNode(bitIdentifier, "bit")
			if err != nil {
				return Entity{}, err
			}
			err = r.appendNode(characterIdentifier, "character")
			if err != nil {
				return Entity{}, err
			}
			err = r.appendNode(wordIdentifier, "word")
			if err != nil {
				return Entity{}, err
			}
			err = r.appendNode(phraseIdentifier, "phrase")
			if err != nil {
				return Entity{}, err
			}
			err = r.appendNode(detailIdentifier, "detail")
			if err != nil {
				return Entity{}, err
			}
			err = r.appendNode(remarkIdentifier, "position")
			if err != nil {
				return Entity{}, err
			}
			err = r.appendNode(factIdentifier, "fact")
			if err != nil {
				return Entity{}, err
			}
			err = r.appendNode(storyIdentifier, "story")
			if err != nil {
				return Entity{}, err
			}
		}

		r.entity = newEntity(
			node.NewBit(bitIdentifier, r.storage),
			node.NewCharacter(characterIdentifier, r.storage),
			node.NewWord(wordIdentifier, r.storage),
			node.NewPhrase(phraseIdentifier, r.storage),
			node.NewDetail(detailIdentifier, r.storage),
			node.NewRemark(remarkIdentifier, r.storage),
			node.NewFact(factIdentifier, r.storage),
			node.NewStory(storyIdentifier, r.storage),
		)
	}

	return r.entity, nil
}

func (r *Repository) createNode(identifier uint, name string) error {
	result, err := r.storage.Create()
	if err != nil {
		return err
	}
	if result != identifier {
		return fmt.Errorf("wrong %s class node %d", name, result)
	}
	return nil
}

func (r *Repository) appendNode(identifier uint, name string) error {
	if err := r.createNode(identifier, name); err != nil {
		return err
	}
	return r.storage.SetReference(identifier-1, identifier)
}'''))
BL=C+'bit/layer.go'
r('r12-bit-helpers',(BL,'@func (l *layer) initialize','''func order(identifiers []uint) (uint, uint) {
	if identifiers[0] < identifiers[1] {
		return identifiers[0], identifiers[1]
	}
	return identifiers[1], identifiers[0]
}

func (l *layer) create(value bool, class uint) (Entity, error) {
	character, err := l.storage.Create()
	if err != nil {
		return Entity{}, err
	}
	err = l.storage.SetReference(class, character)
	if err != nil {
		return Entity{}, err
	}
	return newEntity(value, class, character, l.storage), nil
}

func (l *layer) read(value bool, class uint) (Entity, error) {
	_, character, err := l.storage.GetReference(class)
	if err != nil {
		return Entity{}, err
	}
	return newEntity(value, class, character, l.storage), nil
}

func (l *layer) initialize() (Entity, Entity, error) {
	if l.isInitialized {
		return l.zeroEntity, l.oneEntity, nil
	}

	classEntity, err := l.classRepository.ProvideEntity()
	if err != nil {
		return Entity{}, Entity{}, err
	}

	identifiers, err := classEntity.GetAllBits()
	if err != nil {
		return Entity{}, Entity{}, err
	}

	provide := l.read
	if len(identifiers) == 0 {
		provide = l.create
		for len(identifiers) < 2 {
			identifier, err := classEntity.CreateBit()
			if err != nil {
				return Entity{}, Entity{}, err
			}
			identifiers = append(identifiers, identifier)
		}
	} else if len(identifiers) != 2 {
		return Entity{}, Entity{}, fmt.Errorf("wrong number of bit nodes in class %d", len(identifiers))
	}

	zero, one := order(identifiers)

	l.zeroEntity, err = provide(false, zero)
	if err != nil {
		return Entity{}, Entity{}, err
	}

	l.oneEntity, err = provide(true, one)
	if err != nil {
		return Entity{}, Entity{}, err
	}

	l.isInitialized = true

	return l.zeroEntity, l.oneEntity, nil
}'''))
ord4='''			if classIdentifiers[0] < classIdentifiers[1] {
				zeroClassIdentifier = classIdentifiers[0]
				oneClassIdentifier = classIdentifiers[1]
			} else {
				zeroClassIdentifier = classIdentifiers[1]
				oneClassIdentifier = classIdentifiers[0]
			}
'''
r('r13-bit-sort',(BL,ord4,'''			zeroClassIdentifier, oneClassIdentifier = sorted(classIdentifiers[0], classIdentifiers[1])
''','all'),(BL,'func (l *layer) initialize','''func sorted(a uint, b uint) (uint, uint) {
	if a > b {
		a, b = b, a
	}
	return a, b
}

func (l *layer) initialize'''))
CE=C+'character/element.go'
r('r14-merge-loops',(CE,'''	targetCharacters := make([]abstractCharacter.Entity, 0, len(targetCharacterIdentifiers))

	for _, targetCharacterIdentifier''','''	for _, targetCharacterIdentifier'''),(CE,'''		targetCharacters = append(targetCharacters, targetCharacter)
	}

	// use existing
	for _, targetCharacter := range targetCharacters {

''',''))
WE=C+'word/element.go'
import re
src=open('/repo/'+WE).read()
i=src.index('	targetWordIdentifiers, err := e.word.GetTargetWords()'); j=src.index('	// create new')
body=src[i:j]
hb=body.replace('return nil, err','return nil, false, err').replace('''				characterRepository: e.characterRepository,
			}, nil''','''				characterRepository: e.characterRepository,
			}, true, nil''')
r('r15-find-helper',(WE,body,'''	existing, found, err := e.findNext(characterValue)
	if err != nil {
		return nil, err
	}

	if found {
		return existing, nil
	}

'''),(WE,'func (e Element) ExtractCharacterValue','func (e Element) findNext(characterValue rune) (abstractWord.Element, bool, error) {\n'+hb+'	return nil, false, nil\n}\n\nfunc (e Element) ExtractCharacterValue'))
hb2=body.replace('''				characterRepository: e.characterRepository,
			}, nil''','''				characterRepository: e.characterRepository,
			}, nil''')
r('r16-find-helper-nil',(WE,body,'''	existing, err := e.findNext(characterValue)
	if err != nil {
		return nil, err
	}

	if existing != nil {
		return existing, nil
	}

'''),(WE,'func (e Element) ExtractCharacterValue','func (e Element) findNext(characterValue rune) (abstractWord.Element, error) {\n'+hb2+'	return nil, nil\n}\n\nfunc (e Element) ExtractCharacterValue'))
PA=C+'phrase/aggregate.go'
r('r17-prepend',(PA,'path = append(path, wordValue)','path = append([]string{wordValue}, path...)'),(PA,'return path.reverse().toString(), nil','return path.toString(), nil'))
r('r18-reverse-inplace',(C+'word/path.go','@func (p path) reverse','''func (p path) reverse() path {
	for i, j := 0, len(p)-1; i < j; i, j = i+1, j-1 {
		p[i], p[j] = p[j], p[i]
	}
	return p
}'''))
r('r19-reverse-range',(C+'phrase/path.go','@func (p path) reverse','''func (p path) reverse() path {
	reversed := make(path, len(p))
	for i, word := range p {
		reversed[len(p)-1-i] = word
	}
	return reversed
}'''))
r('r20-reverse-append',(C+'word/path.go','@func (p path) reverse','''func (p path) reverse() path {
	reversed := make(path, 0, len(p))
	for i := len(p) - 1; i >= 0; i-- {
		reversed = append(reversed, p[i])
	}
	return reversed
}'''))
CP=C+'character/paths.go'
r('r21-format-int',(CP,'bitNames := fmt.Sprintf("%b", integer)','bitNames := strconv.FormatInt(int64(integer), 2)'),(CP,'import "fmt"','import (\n\t"fmt"\n\t"strconv"\n)'))
r('r22-collect-append',(CP,'''	bitValues := path(make([]bool, len(bitNames)))
	for i, bitName := range bitNames {''','''	bitValues := make(path, 0, len(bitNames))
	for _, bitName := range bitNames {'''),(CP,"bitValues[i] = bitName == '1'","bitValues = append(bitValues, bitName == '1')"))
r('r23-collect-switch',(CP,'''		if bitName != '0' && bitName != '1' {
			return path{}, fmt.Errorf("invalid bit name: %c", bitName)
		}
''',''),(CP,"		bitValues[i] = bitName == '1'\n",'''		switch bitName {
		case '0':
			bitValues[i] = false
		case '1':
			bitValues[i] = true
		default:
			return path{}, fmt.Errorf("invalid bit name: %c", bitName)
		}
'''))
r('r24-word-range',(C+'word/paths.go','''	path := []rune(word)

	if len(path) < 1 {
		return path,''','''	path := make(path, 0, len(word))
	for _, character := range word {
		path = append(path, character)
	}

	if len(path) == 0 {
		return path,'''))
DF=C+'detail/factory.go'
lo='''	commonDetailIdentifiers := make([]uint, 0, 1)

	// TODO: optimize (cut tails, use map, sort)
	for _, objectTargetDetail := range objectTargetDetails {
		for _, propertySourceDetail := range propertySourceDetails {
			if propertySourceDetail == objectTargetDetail {
				commonDetailIdentifiers = append(commonDetailIdentifiers, propertySourceDetail)
			}
		}
	}
'''
r('r25-map-intersect',(DF,lo,'''	isObjectDetail := make(map[uint]bool, len(objectTargetDetails))
	for _, objectTargetDetail := range objectTargetDetails {
		isObjectDetail[objectTargetDetail] = true
	}

	commonDetailIdentifiers := make([]uint, 0, 1)
	for _, propertySourceDetail := range propertySourceDetails {
		if isObjectDetail[propertySourceDetail] {
			commonDetailIdentifiers = append(commonDetailIdentifiers, propertySourceDetail)
		}
	}
'''))
r('r26-map-struct',(DF,lo,'''	objectDetails := map[uint]struct{}{}
	for _, objectTargetDetail := range objectTargetDetails {
		objectDetails[objectTargetDetail] = struct{}{}
	}

	var commonDetailIdentifiers []uint
	for _, propertySourceDetail := range propertySourceDetails {
		if _, ok := objectDetails[propertySourceDetail]; ok {
			commonDetailIdentifiers = append(commonDetailIdentifiers, propertySourceDetail)
		}
	}
'''))
r('r27-intersect-helper',(DF,lo,'''	commonDetailIdentifiers := intersect(objectTargetDetails, propertySourceDetails)
'''),(DF,'func (f *Factory) ProvideEntity','''func intersect(left []uint, right []uint) []uint {
	var common []uint
	for _, l := range left {
		if contains(right, l) {
			common = append(common, l)
		}
	}
	return common
}

func contains(identifiers []uint, identifier uint) bool {
	for _, i := range identifiers {
		if i == identifier {
			return true
		}
	}
	return false
}

func (f *Factory) ProvideEntity'''))
r('r28-intersect-index',(DF,lo,'''	commonDetailIdentifiers := make([]uint, 0, 1)

	for i := 0; i < len(objectTargetDetails); i++ {
		for j := range propertySourceDetails {
			if propertySourceDetails[j] != objectTargetDetails[i] {
				continue
			}
			commonDetailIdentifiers = append(commonDetailIdentifiers, propertySourceDetails[j])
		}
	}
'''))
NR=C+'class/node/remark.go'
edits=[]
for n,lab in [('bit','bit'),('character','character'),('word','word'),('phrase','phrase'),('detail','detail'),('remark','remark'),('fact','fact'),('story','story')]:
    s=open('/repo/'+C+'class/node/%s.go'%n).read()
    m=re.search(r'func \((\w) (\w+)\) Is\(identifier uint\) \(bool, error\) \{',s)
    msg=re.search(r'fmt\.Errorf\("(wrong number of targets at .*?)"',s).group(1)
    edits.append((C+'class/node/%s.go'%n,'@'+m.group(0),m.group(0)+'''
	return isOfClass(%s.storage, identifier, %s.identifier, "%s")
}'''%(m.group(1),m.group(1),msg)))
    if n!='bit' or 'fmt.' not in s.split(m.group(0))[0]:
        edits.append((C+'class/node/%s.go'%n,'import "fmt"\n','') if 'import "fmt"\n' in s else (C+'class/node/%s.go'%n,'\t"fmt"\n',''))
r('r29-node-is-helper',*edits,(C+'class/node/is.go',None,'''package node

import "fmt"

func isOfClass(storage storage, identifier uint, class uint, message string) (bool, error) {
	targets, err := storage.ReadTargets(identifier)
	if err != nil {
		return false, err
	}

	if len(targets) == 1 {
		return targets[0] == class, nil
	}

	return false, fmt.Errorf(message, identifier)
}
'''))
SS=C+'story/storage.go'
r('r30-chain-variadic',(SS,'''	err = s.storage.SetReference(class, fact)
	if err != nil {
		return Entity{}, err
	}

	err = s.storage.SetReference(fact, position)
	if err != nil {
		return Entity{}, err
	}

	err = s.storage.SetReference(position, tree)
	if err != nil {
		return Entity{}, err
	}
''','''	err = s.chain(class, fact, position, tree)
	if err != nil {
		return Entity{}, err
	}
'''),(SS,'func (s *Storage) ReadEntityByClass','''func (s *Storage) chain(nodes ...uint) error {
	for i := 1; i < len(nodes); i++ {
		err := s.storage.SetReference(nodes[i-1], nodes[i])
		if err != nil {
			return err
		}
	}
	return nil
}

func (s *Storage) ReadEntityByClass'''))
FS=C+'fact/storage.go'
r('r31-create-array',(FS,'@func (s *Storage) CreateEntity','''func (s *Storage) CreateEntity(class uint) (abstractFact.Entity, error) {

	var nodes [3]uint
	for i := range nodes {
		node, err := s.storage.Create()
		if err != nil {
			return Entity{}, err
		}
		nodes[i] = node
	}

	previous := class
	for _, node := range nodes {
		err := s.storage.SetReference(previous, node)
		if err != nil {
			return Entity{}, err
		}
		previous = node
	}

	return Entity{
		class:    class,
		remark:   nodes[0],
		position: nodes[1],
		story:    nodes[2],
		storage:  s.storage,
	}, nil
}'''))
r('r32-single-helper',(C+'story/entity.go','@func (e Entity) GetTargetPosition','''func single(identifiers []uint, name string) (uint, error) {
	if len(identifiers) != 1 {
		return 0, fmt.Errorf("story has wrong number of %s", name)
	}
	return identifiers[0], nil
}

func (e Entity) GetTargetPosition() (uint, error) {
	targets, err := e.storage.ReadTargets(e.position)
	if err != nil {
		return 0, err
	}
	return single(targets, "next stories")
}'''),(C+'story/entity.go','@func (e Entity) GetTargetFact','''func (e Entity) GetTargetFact() (uint, error) {
	targets, err := e.storage.ReadTargets(e.fact)
	if err != nil {
		return 0, err
	}
	return single(targets, "target facts")
}'''))
r('r33-read-helper',(C+'character/entity.go','@func (e Entity) HasTargetWord','''func (e Entity) readTargetWords() ([]uint, error) {
	targets, err := e.storage.ReadTargets(e.word)
	if err != nil {
		return nil, err
	}
	if len(targets) > 1 {
		return nil, fmt.Errorf("character has wrong number of target words: %d at %d", len(targets), e.word)
	}
	return targets, nil
}

func (e Entity) HasTargetWord() (bool, error) {

	targets, err := e.readTargetWords()
	if err != nil {
		return false, err
	}

	return len(targets) == 1, nil
}'''),(C+'character/entity.go','@func (e Entity) GetTargetWord','''func (e Entity) GetTargetWord() (uint, error) {

	targets, err := e.readTargetWords()
	if err != nil {
		return 0, err
	}

	if len(targets) == 0 {
		return 0, fmt.Errorf("character has no target words at %d", e.word)
	}

	return targets[0], nil
}'''))
r('r34-detail-text-helper',(C+'detail/aggregate.go','@func (a Aggregate) GetObjectAndProperty','''func (a Aggregate) extract(identifier uint) (string, error) {
	phrase, err := a.phraseRepository.Fetch(identifier)
	if err != nil {
		return "", err
	}
	return phrase.Extract()
}

func (a Aggregate) GetObjectAndProperty() (string, string, error) {

	objectIdentifier, propertyIdentifier, err := a.detail.GetObjectAndPropertyPhrases()
	if err != nil {
		return "", "", err
	}

	object, err := a.extract(objectIdentifier)
	if err != nil {
		return "", "", err
	}

	property, err := a.extract(propertyIdentifier)
	if err != nil {
		return "", "", err
	}

	return object, property, nil
}'''))
r('r35-getremark-reorder',(C+'remark/repository.go','''	remark, err := r.remarkStorage.ReadEntityByClass(remarkIdentifier)
	if err != nil {
		return nil, err
	}

	class, err''','''	class, err'''),(C+'remark/repository.go','''		return nil, fmt.Errorf("remark has wrong class: %d", remarkIdentifier)
	}
''','''		return nil, fmt.Errorf("remark has wrong class: %d", remarkIdentifier)
	}

	remark, err := r.remarkStorage.ReadEntityByClass(remarkIdentifier)
	if err != nil {
		return nil, err
	}
'''))
r('r36-firststory-helper',(FR,'''	class, err := r.classRepository.ProvideEntity()
	if err != nil {
		return nil, err
	}

	classIdentifier, err := class.CreateFact()
	if err != nil {
		return nil, err
	}

	fact, err := r.factStorage.CreateEntity(classIdentifier)
	if err != nil {
		return nil, err
	}
''','''	fact, err := r.createFact()
	if err != nil {
		return nil, err
	}
'''),(FR,'''	class, err := r.classRepository.ProvideEntity()
	if err != nil {
		return nil, err
	}

	classIdentifier, err := class.CreateFact()
	if err != nil {
		return nil, err
	}

	nextFact, err := r.factStorage.CreateEntity(classIdentifier)
	if err != nil {
		return nil, err
	}
''','''	nextFact, err := r.createFact()
	if err != nil {
		return nil, err
	}
'''),(FR,'func (r *Repository) FetchByRemark','''func (r *Repository) createFact() (abstractFact.Entity, error) {
	class, err := r.classRepository.ProvideEntity()
	if err != nil {
		return nil, err
	}
	identifier, err := class.CreateFact()
	if err != nil {
		return nil, err
	}
	return r.factStorage.CreateEntity(identifier)
}

func (r *Repository) FetchByRemark'''))
r('r37-provide-index',(C+'word/repository.go','''	for _, characterValue := range path[1:] {

		wordElement, err = wordElement.ProvideNextElement(characterValue)''','''	for i := 1; i < len(path); i++ {

		wordElement, err = wordElement.ProvideNextElement(path[i])'''))
WR=C+'word/repository.go'
s=open('/repo/'+WR).read(); i=s.index('	wordElement, err := r.wordElements.ProvideFirst'); j=s.index('	return Aggregate{',i)
r('r38-provide-flag',(WR,s[i:j],'''	var wordElement abstractWord.Element
	for i, characterValue := range path {
		if i == 0 {
			wordElement, err = r.wordElements.ProvideFirstElement(characterValue)
		} else {
			wordElement, err = wordElement.ProvideNextElement(characterValue)
		}
		if err != nil {
			return nil, err
		}
	}

'''))
r('r39-provide-helper',(WR,s[i:j],'''	wordElement, err := r.provideElement(path)
	if err != nil {
		return nil, err
	}

'''),(WR,'func (r *Repository) Fetch','''func (r *Repository) provideElement(path path) (abstractWord.Element, error) {
	element, err := r.wordElements.ProvideFirstElement(path[0])
	if err != nil {
		return nil, err
	}
	rest := path[1:]
	for len(rest) > 0 {
		element, err = element.ProvideNextElement(rest[0])
		if err != nil {
			return nil, err
		}
		rest = rest[1:]
	}
	return element, nil
}

func (r *Repository) Fetch'''))
WA=C+'word/aggregate.go'
r('r40-extract-loop',(WA,'@func (a Aggregate) Extract','''func (a Aggregate) Extract() (string, error) {

	var path path
	element := a.wordElements.CreateLastElement(a.word)

	for {
		value, err := element.ExtractCharacterValue()
		if err != nil {
			return "", err
		}
		path = append(path, value)

		hasPrevious, err := element.HasPreviousElement()
		if err != nil {
			return "", err
		}
		if !hasPrevious {
			return path.reverse().toString(), nil
		}

		element, err = element.GetPreviousElement()
		if err != nil {
			return "", err
		}
	}
}'''))
r('r41-fact-story-helper',*[(C+'fact/aggregate.go','''	storyIdentifier, err := a.fact.GetTargetStory()
	if err != nil {
		return %s, err
	}

	story, err := a.storyRepository.FetchByFact(storyIdentifier)
	if err != nil {
		return %s, err
	}
'''%(z,z),'''	story, err := a.fetchStory()
	if err != nil {
		return %s, err
	}
'''%z,'all') for z in('nil','false')],(C+'fact/aggregate.go','func (a Aggregate) HasNextStory','''func (a Aggregate) fetchStory() (abstractStory.Entity, error) {
	identifier, err := a.fact.GetTargetStory()
	if err != nil {
		return nil, err
	}
	return a.storyRepository.FetchByFact(identifier)
}

func (a Aggregate) HasNextStory'''))
r('r42-error-wrap',('graph.go','		return Remark{}, err\n','		return Remark{}, fmt.Errorf("semnet: %w", err)\n','all'),('graph.go','import (\n','import (\n\t"fmt"\n'))
r('r43-named-defer',(C+'phrase/repository.go','func (r *Repository) Provide(words string) (abstractPhrase.Aggregate, error) {\n','''func (r *Repository) Provide(words string) (aggregate abstractPhrase.Aggregate, err error) {
	defer func() {
		if err != nil {
			err = fmt.Errorf("cannot provide phrase: %w", err)
		}
	}()
'''),(C+'phrase/repository.go','import (\n','import (\n\t"fmt"\n'))
r('r44-if-init',(FR,'''	err = fact.PointToStory(story.GetFact())
	if err != nil {
		return nil, err
	}

	err = story.PointToFact(fact.GetStory())
	if err != nil {
		return nil, err
	}
''','''	if err := fact.PointToStory(story.GetFact()); err != nil {
		return nil, err
	}

	if err := story.PointToFact(fact.GetStory()); err != nil {
		return nil, err
	}
'''))
r('r45-tail-no-double-link',(WE,'''	err = e.word.PointToWord(newWord.GetWord())
	if err != nil {
		return nil, err
	}

''',''))
