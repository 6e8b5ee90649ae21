C='internal/concrete/'
R=[]
def r(id,*e): R.append(dict(id=id,edits=list(e)))
OUT='output.go'
GS='@func (o *Output) GetStory'
HEAD='''func (o *Output) GetStory(remark Remark) (string, error) {

	factRemark, err := remark.GetFirstFact()
	if err != nil {
		return "", err
	}
'''
TAIL='''
		hasNextRemark, err := factRemark.HasNextRemark()
		if err != nil {
			return "", err
		}

		if !hasNextRemark {
			break
		}

		factRemark, err = factRemark.GetNextRemark()
		if err != nil {
			return "", err
		}
	}
'''
AR=(OUT,'import "bytes"','import (\n	"bytes"\n\n	abstractRemark "github.com/mem-memov/semnet/internal/abstract/remark"\n)')
def imp(*m): return (OUT,'import "bytes"','import (\n'+''.join('\t"%s"\n'%x for x in m)+')')
r('F01-bufio',(OUT,GS,HEAD+'''
	var buffer bytes.Buffer
	writer := bufio.NewWriter(&buffer)

	for {
		object, property, err := factRemark.GetObjectAndProperty()
		if err != nil {
			return "", err
		}

		writer.WriteString(object)
		writer.WriteByte(' ')
		writer.WriteString(property)
		writer.WriteByte(' ')
'''+TAIL+'''
	if err := writer.Flush(); err != nil {
		return "", err
	}

	return buffer.String(), nil
}
'''),imp('bufio','bytes'))
r('F02-pool',(OUT,GS,'''var buffers = sync.Pool{New: func() interface{} { return new(bytes.Buffer) }}

'''+HEAD+'''
	buffer := buffers.Get().(*bytes.Buffer)
	buffer.Reset()
	defer buffers.Put(buffer)

	for {
		object, property, err := factRemark.GetObjectAndProperty()
		if err != nil {
			return "", err
		}

		buffer.WriteString(object)
		buffer.WriteString(" ")
		buffer.WriteString(property)
		buffer.WriteString(" ")
'''+TAIL+'''
	return buffer.String(), nil
}
'''),imp('bytes','sync'))
r('F03-scanner',(OUT,GS,'''type factScanner struct {
	remark  abstractRemark.Aggregate
	started bool
	done    bool
	err     error
}

func (s *factScanner) next() bool {

	if s.done || s.err != nil {
		return false
	}

	if !s.started {
		s.started = true
		return true
	}

	has, err := s.remark.HasNextRemark()
	if err != nil || !has {
		s.done, s.err = true, err
		return false
	}

	s.remark, s.err = s.remark.GetNextRemark()

	return s.err == nil
}

'''+HEAD+'''
	var buffer bytes.Buffer

	scanner := &factScanner{remark: factRemark}

	for scanner.next() {
		object, property, err := scanner.remark.GetObjectAndProperty()
		if err != nil {
			return "", err
		}

		buffer.WriteString(object)
		buffer.WriteString(" ")
		buffer.WriteString(property)
		buffer.WriteString(" ")
	}

	if scanner.err != nil {
		return "", scanner.err
	}

	return buffer.String(), nil
}
'''),AR)
r('F04-generator',(OUT,GS,'''func facts(first abstractRemark.Aggregate) func() (abstractRemark.Aggregate, bool, error) {

	current := first
	started := false

	return func() (abstractRemark.Aggregate, bool, error) {
		if !started {
			started = true
			return current, true, nil
		}

		has, err := current.HasNextRemark()
		if err != nil || !has {
			return nil, false, err
		}

		current, err = current.GetNextRemark()

		return current, err == nil, err
	}
}

'''+HEAD+'''
	var buffer bytes.Buffer

	next := facts(factRemark)

	for {
		current, ok, err := next()
		if err != nil {
			return "", err
		}

		if !ok {
			return buffer.String(), nil
		}

		object, property, err := current.GetObjectAndProperty()
		if err != nil {
			return "", err
		}

		for _, part := range [...]string{object, property} {
			buffer.WriteString(part)
			buffer.WriteByte(' ')
		}
	}
}
'''),AR)
WX='''	path := a.paths.create(characterValue)

	for {
		hasPreviousElement, err := wordElement.HasPreviousElement()
		if err != nil {
			return "", err
		}

		if !hasPreviousElement {
			break
		}

		wordElement, err = wordElement.GetPreviousElement()
		if err != nil {
			return "", err
		}

		characterValue, err := wordElement.ExtractCharacterValue()
		if err != nil {
			return "", err
		}

		path = append(path, characterValue)
	}

	return path.reverse().toString(), nil
'''
r('F05-list',(C+'word/aggregate.go',WX,'''	characters := list.New()
	characters.PushFront(characterValue)

	for {
		hasPreviousElement, err := wordElement.HasPreviousElement()
		if err != nil {
			return "", err
		}

		if !hasPreviousElement {
			break
		}

		wordElement, err = wordElement.GetPreviousElement()
		if err != nil {
			return "", err
		}

		characterValue, err := wordElement.ExtractCharacterValue()
		if err != nil {
			return "", err
		}

		characters.PushFront(characterValue)
	}

	var builder strings.Builder
	for e := characters.Front(); e != nil; e = e.Next() {
		builder.WriteRune(e.Value.(rune))
	}

	return builder.String(), nil
'''),(C+'word/aggregate.go','import (\n','import (\n	"container/list"\n	"strings"\n\n'))
r('F06-word-scanner',(C+'word/aggregate.go','@func (a Aggregate) Extract','''type backwards struct {
	element abstractWord.Element
	value   rune
	more    bool
	err     error
}

func (b *backwards) next() bool {

	if b.err != nil || !b.more {
		return false
	}

	b.value, b.err = b.element.ExtractCharacterValue()
	if b.err != nil {
		return false
	}

	b.more, b.err = b.element.HasPreviousElement()
	if b.err != nil {
		return false
	}

	if b.more {
		b.element, b.err = b.element.GetPreviousElement()
	}

	return b.err == nil
}

func (a Aggregate) Extract() (string, error) {

	scan := &backwards{element: a.wordElements.CreateLastElement(a.word), more: true}

	var path path
	for scan.next() {
		path = append(path, scan.value)
	}

	if scan.err != nil {
		return "", scan.err
	}

	return path.reverse().toString(), nil
}
'''))
r('F07-detail-values',(C+'detail/repository.go','''	objectPhrase, err := r.phraseRepository.Provide(object)
	if err != nil {
		return nil, err
	}

	propertyPhrase, err := r.phraseRepository.Provide(property)
	if err != nil {
		return nil, err
	}
''','''	phrases := make([]abstractPhrase.Aggregate, 0, 2)

	for _, text := range []string{object, property} {
		phrase, err := r.phraseRepository.Provide(text)
		if err != nil {
			return nil, err
		}

		phrases = append(phrases, phrase)
	}

	objectPhrase, propertyPhrase := phrases[0], phrases[1]
'''))
r('F08-detail-array',(C+'detail/repository.go','''	objectPhrase, err := r.phraseRepository.Provide(object)
	if err != nil {
		return nil, err
	}

	propertyPhrase, err := r.phraseRepository.Provide(property)
	if err != nil {
		return nil, err
	}
''','''	texts := [2]string{object, property}
	var phrases [2]abstractPhrase.Aggregate
	var err error

	for i := range texts {
		if phrases[i], err = r.phraseRepository.Provide(texts[i]); err != nil {
			return nil, err
		}
	}

	objectPhrase, propertyPhrase := phrases[0], phrases[1]
'''))
SET='''	err = s.storage.SetReference(class, phrase)
	if err != nil {
		return nil, err
	}

	err = s.storage.SetReference(phrase, remark)
	if err != nil {
		return nil, err
	}
'''
r('F09-set-pairs',(C+'detail/storage.go',SET,'''	for _, pair := range [][2]uint{{class, phrase}, {phrase, remark}} {
		if err := s.storage.SetReference(pair[0], pair[1]); err != nil {
			return nil, err
		}
	}
'''))
r('F10-set-chain',(C+'detail/storage.go',SET,'''	chain := []uint{class, phrase, remark}
	for i := 1; i < len(chain); i++ {
		if err := s.storage.SetReference(chain[i-1], chain[i]); err != nil {
			return nil, err
		}
	}
'''))
r('F11-set-prev',(C+'detail/storage.go',SET,'''	previous := class
	for _, node := range []uint{phrase, remark} {
		if err := s.storage.SetReference(previous, node); err != nil {
			return nil, err
		}
		previous = node
	}
'''))
r('F12-embed-storage',(C+'detail/storage.go','storage abstract.Storage\n}','abstract.Storage\n}'),(C+'detail/storage.go','s.storage.','s.Storage.','all'),(C+'detail/storage.go','storage: s.storage,','storage: s.Storage,','all'),(C+'detail/storage.go','storage: storage,','Storage: storage,','all'))
INT='''	commonDetailIdentifiers := make([]uint, 0, 1)

	// TODO: optimize (cut tails, use map, sort)
	for _, objectTargetDetail := range objectTargetDetails {
		for _, propertySourceDetail := range propertySourceDetails {
			if propertySourceDetail == objectTargetDetail {
				commonDetailIdentifiers = append(commonDetailIdentifiers, propertySourceDetail)
			}
		}
	}
'''
r('F13-set-type',(C+'detail/factory.go',INT,'''	known := newIdentifiers(propertySourceDetails...)

	var commonDetailIdentifiers []uint
	for _, identifier := range objectTargetDetails {
		if known.has(identifier) {
			commonDetailIdentifiers = append(commonDetailIdentifiers, identifier)
		}
	}
'''),(C+'detail/identifiers.go',None,'''package detail

type identifiers map[uint]struct{}

func newIdentifiers(values ...uint) identifiers {
	set := make(identifiers, len(values))
	for _, value := range values {
		set[value] = struct{}{}
	}
	return set
}

func (s identifiers) has(value uint) bool {
	_, ok := s[value]
	return ok
}
'''))
r('F14-search',(C+'detail/factory.go',INT,'''	sorted := append([]uint(nil), propertySourceDetails...)
	sort.Slice(sorted, func(i, j int) bool { return sorted[i] < sorted[j] })

	var commonDetailIdentifiers []uint
	for _, identifier := range objectTargetDetails {
		at := sort.Search(len(sorted), func(i int) bool { return sorted[i] >= identifier })
		if at < len(sorted) && sorted[at] == identifier {
			commonDetailIdentifiers = append(commonDetailIdentifiers, identifier)
		}
	}
'''),(C+'detail/factory.go','import (\n','import (\n	"sort"\n'))
r('F15-count-map',(C+'detail/factory.go',INT,'''	counts := make(map[uint]int)
	for _, list := range [][]uint{objectTargetDetails, propertySourceDetails} {
		for _, identifier := range list {
			counts[identifier]++
		}
	}

	var commonDetailIdentifiers []uint
	for _, identifier := range objectTargetDetails {
		if counts[identifier] == 2 {
			commonDetailIdentifiers = append(commonDetailIdentifiers, identifier)
		}
	}
'''))
r('F16-smaller',(C+'detail/factory.go',INT,'''	short, long := objectTargetDetails, propertySourceDetails
	if len(short) > len(long) {
		short, long = long, short
	}

	commonDetailIdentifiers := make([]uint, 0, 1)
	for _, one := range short {
		for _, other := range long {
			if one == other {
				commonDetailIdentifiers = append(commonDetailIdentifiers, one)
				break
			}
		}
	}
'''))
r('F17-path-string',(C+'word/path.go','@func (p path) reverse','''func (p path) reverse() path {

	reversed := append(path(nil), p...)

	sort.SliceStable(reversed, func(i, j int) bool { return false })

	for left, right := 0, len(reversed)-1; left < right; {
		reversed[left], reversed[right] = reversed[right], reversed[left]
		left++
		right--
	}

	return reversed
}
'''),(C+'word/path.go','package word\n','package word\n\nimport "sort"\n'))
r('F18-node-type',(C+'remark/node.go',None,'package remark\n\n// node identifies a node\ntype node = uint\n'),(C+'remark/entity.go','uint','node','all'))
r('F19-collect-switch-map',(C+'character/paths.go','''	for i, bitName := range bitNames {
		if bitName != '0' && bitName != '1' {
			return path{}, fmt.Errorf("invalid bit name: %c", bitName)
		}
		bitValues[i] = bitName == '1'
	}
''','''	for i, bitName := range bitNames {
		value, ok := bitNamesToValues[bitName]
		if !ok {
			return path{}, fmt.Errorf("invalid bit name: %c", bitName)
		}
		bitValues[i] = value
	}
'''),(C+'character/paths.go','type paths struct{}','var bitNamesToValues = map[rune]bool{\'0\': false, \'1\': true}\n\ntype paths struct{}'))
r('F20-collect-reverse-bits',(C+'character/paths.go','@func (p *paths) collect','''func (p *paths) collect(integer rune) (path, error) {

	if integer == 0 {
		return path{false}, nil
	}

	size := bits.Len32(uint32(integer))
	reversed := bits.Reverse32(uint32(integer)) >> (32 - uint(size))

	bitValues := make(path, size)
	for i := range bitValues {
		bitValues[i] = reversed>>uint(i)&1 == 1
	}

	return bitValues, nil
}
'''),(C+'character/paths.go','import (\n	"fmt"\n)','import "math/bits"'))
r('F21-split-after',(C+'phrase/paths.go','	path := strings.Split(words, " ")\n','''	var path path
	for _, word := range strings.SplitAfter(words, " ") {
		path = append(path, strings.TrimSuffix(word, " "))
	}
'''))
r('F22-fieldsfunc-guard',(C+'phrase/paths.go','	path := strings.Split(words, " ")\n','''	var path path
	start := 0
	for i := 0; i <= len(words); i++ {
		if i == len(words) || words[i] == ' ' {
			path = append(path, words[start:i])
			start = i + 1
		}
	}
'''),(C+'phrase/paths.go','	"strings"\n',''))
r('F23-index-cut',(C+'phrase/paths.go','	path := strings.Split(words, " ")\n','''	var path path
	rest := words
	for {
		at := strings.Index(rest, " ")
		if at < 0 {
			path = append(path, rest)
			break
		}
		path = append(path, rest[:at])
		rest = rest[at+len(" "):]
	}
'''))
r('F24-graph-check',('graph.go','''	aggregate, err := g.remarkRepository.GetRemark(remarkIdentifier)
	if err''','''	aggregate, err := g.remarkRepository.GetRemark(remarkIdentifier)
	if err == nil && aggregate == nil {
		err = errors.New("no remark")
	}
	if err'''),('graph.go','import (\n','import (\n	"errors"\n\n'))
r('F25-graph-identifier',('graph.go','''	aggregate, err := g.remarkRepository.GetRemark(remarkIdentifier)
	if err''','''	aggregate, err := g.remarkRepository.GetRemark(remarkIdentifier)
	if err == nil && aggregate.GetIdentifier() != remarkIdentifier {
		err = errors.New("another remark")
	}
	if err'''),('graph.go','import (\n','import (\n	"errors"\n\n'))
r('F26-clone-repo',(C+'phrase/repository.go','''	return &Repository{
		phraseStorage:  phraseStorage,
		phraseElements: NewElements(phraseStorage, phraseFactory, classRepository, wordRepository),
		paths:          newPaths(),
	}
''','''	base := Repository{phraseStorage: phraseStorage, paths: newPaths()}
	clone := base
	clone.phraseElements = NewElements(phraseStorage, phraseFactory, classRepository, wordRepository)

	return &clone
'''))
r('F27-once-phrase',(C+'phrase/repository.go','''	phraseElements abstractPhrase.Elements
	paths          *paths
}
''','''	phraseElements abstractPhrase.Elements
	paths          *paths
	once           sync.Once
}

func (r *Repository) collector() *paths {

	r.once.Do(func() {
		r.paths = newPaths()
	})

	return r.paths
}
'''),(C+'phrase/repository.go','''		paths:          newPaths(),
''',''),(C+'phrase/repository.go','r.paths.collect(','r.collector().collect('),(C+'phrase/repository.go','paths:          r.paths,','paths:          r.collector(),','all'),(C+'phrase/repository.go','import (\n','import (\n	"sync"\n\n'))
r('F28-string-switch',(C+'phrase/repository.go','''	phraseElement, err := r.phraseElements.ProvideFirstElement(path[0])
	if err != nil {
		return nil, err
	}

	for _, wordValue := range path[1:] {

		phraseElement, err = phraseElement.ProvideNextElement(wordValue)
		if err != nil {
			return nil, err
		}
	}
''','''	var phraseElement abstractPhrase.Element

	for i, wordValue := range path {

		provide := r.phraseElements.ProvideFirstElement
		if i > 0 {
			provide = phraseElement.ProvideNextElement
		}

		phraseElement, err = provide(wordValue)
		if err != nil {
			return nil, err
		}
	}
'''))
r('F29-reducer',(C+'phrase/repository.go','''	phraseElement, err := r.phraseElements.ProvideFirstElement(path[0])
	if err != nil {
		return nil, err
	}

	for _, wordValue := range path[1:] {

		phraseElement, err = phraseElement.ProvideNextElement(wordValue)
		if err != nil {
			return nil, err
		}
	}
''','''	provide := r.phraseElements.ProvideFirstElement
	var phraseElement abstractPhrase.Element

	for len(path) > 0 {

		phraseElement, err = provide(path[0])
		if err != nil {
			return nil, err
		}

		provide, path = phraseElement.ProvideNextElement, path[1:]
	}
'''))
r('F30-buffer-sep',(OUT,'''		buffer.WriteString(object)
		buffer.WriteString(" ")
		buffer.WriteString(property)
		buffer.WriteString(" ")
''','''		if buffer.Len() > 0 {
			buffer.WriteString(" ")
		}

		buffer.WriteString(object)
		buffer.WriteString(" ")
		buffer.WriteString(property)
'''),(OUT,'	return buffer.String(), nil','	buffer.WriteString(" ")\n\n	return buffer.String(), nil'))
r('F31-first-flag-sep',(OUT,'''		buffer.WriteString(object)
		buffer.WriteString(" ")
		buffer.WriteString(property)
		buffer.WriteString(" ")
''','''		buffer.WriteString(separator)
		buffer.WriteString(object + " " + property)
		separator = " "
'''),(OUT,'	return buffer.String(), nil','	return buffer.String() + separator, nil'),(OUT,'	var buffer bytes.Buffer\n','	var buffer bytes.Buffer\n	separator := ""\n'))
r('F32-lines-join',(OUT,'''		buffer.WriteString(object)
		buffer.WriteString(" ")
		buffer.WriteString(property)
		buffer.WriteString(" ")
''','''		lines = append(lines, object+" "+property+" ")
'''),(OUT,'	return buffer.String(), nil','	return strings.Join(lines, ""), nil'),(OUT,'	var buffer bytes.Buffer\n','	var lines []string\n'),imp('strings'))
r('F33-matrix',(OUT,'''		buffer.WriteString(object)
		buffer.WriteString(" ")
		buffer.WriteString(property)
		buffer.WriteString(" ")
''','''		lines = append(lines, [2]string{object, property})
'''),(OUT,'	return buffer.String(), nil','''	var buffer bytes.Buffer
	for i := range lines {
		for j := range lines[i] {
			buffer.WriteString(lines[i][j])
			buffer.WriteRune(' ')
		}
	}

	return buffer.String(), nil'''),(OUT,'	var buffer bytes.Buffer\n\n	for {','	lines := make([][2]string, 0, 8)\n\n	for {'))
r('F34-buffer-cap',(OUT,'	var buffer bytes.Buffer\n','	buffer := bytes.NewBuffer(make([]byte, 0, 256))\n'))
r('F35-truncate',(OUT,'''		buffer.WriteString(property)
		buffer.WriteString(" ")
''','''		buffer.WriteString(property)
		buffer.WriteString(", ")
		buffer.Truncate(buffer.Len() - 2)
		buffer.WriteString(" ")
'''))
