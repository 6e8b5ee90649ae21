C='internal/concrete/'
R=[]
def r(id,*e): R.append(dict(id=id,edits=list(e)))
PP=C+'phrase/paths.go'
IMP='import (\n	"fmt"\n	"strings"\n)'
def split(id,body,imp='import (\n	"fmt"\n	"strings"\n)',pre=''):
    r(id,(PP,IMP,imp),(PP,'@func (p *paths) collect',pre+'func (p *paths) collect(words string) (path, error) {\n'+body+'}\n'))
split('B01-cut','''
	var collected path
	for {
		word, rest, found := strings.Cut(words, " ")
		collected = append(collected, word)
		if !found {
			break
		}
		words = rest
	}

	if len(collected) < 1 {
		return collected, fmt.Errorf("no words in phrase cluster: %s", words)
	}

	return collected, nil
''')
split('B02-cut-for','''
	collected := path{}
	word, rest, found := strings.Cut(words, " ")
	for found {
		collected = append(collected, word)
		word, rest, found = strings.Cut(rest, " ")
	}

	return append(collected, word), nil
''',imp='import "strings"')
split('B03-index','''
	collected := make(path, 0, strings.Count(words, " ")+1)
	for {
		end := strings.Index(words, " ")
		if end < 0 {
			return append(collected, words), nil
		}
		collected = append(collected, words[:end])
		words = words[end+1:]
	}
''',imp='import "strings"')
split('B04-indexbyte','''
	collected := make(path, 0, 4)
	for {
		end := strings.IndexByte(words, ' ')
		if end == -1 {
			break
		}
		collected = append(collected, words[:end])
		words = words[end+1:]
	}
	collected = append(collected, words)

	return collected, nil
''',imp='import "strings"')
split('B05-guard','''
	if words == "" {
		return nil, fmt.Errorf("no words in phrase cluster: %s", words)
	}

	if strings.HasPrefix(words, " ") || strings.HasSuffix(words, " ") || strings.Contains(words, "  ") {
		return nil, fmt.Errorf("empty word in phrase cluster: %s", words)
	}

	return strings.Split(words, " "), nil
''')
split('B06-guard-loop','''
	collected := strings.Split(words, " ")

	for position, word := range collected {
		if word == "" {
			return nil, fmt.Errorf("empty word at %d in phrase cluster: %s", position, words)
		}
	}

	return collected, nil
''')
split('B07-guard-len','''
	collected := strings.SplitN(words, " ", -1)

	for _, word := range collected {
		if len(word) == 0 {
			return path{}, fmt.Errorf("empty word in phrase cluster: %s", words)
		}
	}

	return path(collected), nil
''')
split('B08-bytes-manual','''
	var collected path
	start := 0
	for i := 0; i < len(words); i++ {
		if words[i] == ' ' {
			collected = append(collected, words[start:i])
			start = i + 1
		}
	}

	return append(collected, words[start:]), nil
''',imp='import (\n)')
split('B09-genSplit','''
	return strings.Split(words, separator), nil
''',imp='import "strings"',pre='const separator = " "\n\n')
# words of characters
WP=C+'word/paths.go'
def word(id,body,imp='"fmt"'):
    r(id,(WP,'import (\n	"fmt"\n)','import (\n'+''.join('	'+x+'\n' for x in imp.split(','))+')'),(WP,'@func (p *paths) collect','func (p *paths) collect(word string) (path, error) {\n'+body+'}\n'))
word('B10-readrune','''
	var collected path
	reader := strings.NewReader(word)
	for reader.Len() > 0 {
		character, _, err := reader.ReadRune()
		if err != nil {
			return nil, err
		}
		collected = append(collected, character)
	}

	if len(collected) == 0 {
		return collected, fmt.Errorf("no character in word cluster: %s", word)
	}

	return collected, nil
''','"fmt","strings"')
word('B11-runecount','''
	if utf8.RuneCountInString(word) == 0 {
		return nil, fmt.Errorf("no character in word cluster: %s", word)
	}

	collected := make(path, 0, utf8.RuneCountInString(word))
	for _, character := range word {
		collected = append(collected, character)
	}

	return collected, nil
''','"fmt","unicode/utf8"')
word('B12-fill','''
	characters := path(word)
	switch {
	case len(characters) > 0:
		return characters, nil
	default:
		return nil, fmt.Errorf("no character in word cluster: %s", word)
	}
''')
word('B13-trimcheck','''
	if len(word) == 0 {
		return nil, fmt.Errorf("no character in word cluster: %q", word)
	}

	runes := []rune(word)
	collected := make(path, len(runes))
	copy(collected, runes)

	return collected, nil
''')
# output
def out(id,body,imp,pre=''):
    r(id,('output.go','import "bytes"',imp),('output.go','@func (o *Output) GetStory',pre+'func (o *Output) GetStory(remark Remark) (string, error) {\n'+body+'}\n'))
LOOP='''
	factRemark, err := remark.GetFirstFact()
	if err != nil {
		return "", err
	}

	%s

	for {
		object, property, err := factRemark.GetObjectAndProperty()
		if err != nil {
			return "", err
		}

		%s

		hasNextRemark, err := factRemark.HasNextRemark()
		if err != nil {
			return "", err
		}

		if !hasNextRemark {
			break
		}

		factRemark, err = factRemark.GetNextRemark()
		if err != nil {
			return "", err
		}
	}

	return %s, nil
'''
out('B14-sprintf-args',LOOP%('var buffer bytes.Buffer','buffer.WriteString(fmt.Sprintf("%[1]s %[2]s ", object, property))','buffer.String()'),'import (\n	"bytes"\n	"fmt"\n)')
out('B15-fprint',LOOP%('var buffer bytes.Buffer','fmt.Fprint(&buffer, object, " ", property, " ")','buffer.String()'),'import (\n	"bytes"\n	"fmt"\n)')
out('B16-bytes-append',LOOP%('text := make([]byte, 0, 64)','''text = append(text, object...)
		text = append(text, ' ')
		text = append(text, property...)
		text = append(text, ' ')''','string(text)'),'')
out('B17-join-each',LOOP%('builder := &strings.Builder{}','builder.WriteString(strings.Join([]string{object, property, ""}, " "))','builder.String()'),'import "strings"')
out('B18-writer',LOOP%('buffer := new(bytes.Buffer)\n	writer := bufio.NewWriter(buffer)','''if _, err = writer.WriteString(object + " " + property + " "); err != nil {
			return "", err
		}

		if err = writer.Flush(); err != nil {
			return "", err
		}''','buffer.String()'),'import (\n	"bufio"\n	"bytes"\n)')
out('B19-collect-concat',LOOP%('var parts []string','parts = append(parts, object+" "+property+" ")','strings.Join(parts, "")'),'import "strings"')
out('B20-trailing',LOOP%('var parts []string','parts = append(parts, object, property)','strings.Join(parts, " ") + " "'),'import "strings"')
out('B21-grow',LOOP%('var buffer bytes.Buffer','''buffer.Grow(len(object) + len(property) + 2)
		for _, part := range [...]string{object, " ", property, " "} {
			buffer.WriteString(part)
		}''','buffer.String()'),'import "bytes"')
out('B22-count',(LOOP%('var buffer bytes.Buffer\n	count := 0','''buffer.WriteString(object + " ")
		buffer.WriteString(property + " ")
		count++''','buffer.String()')).replace('return buffer','if count == 0 {\n		return "", errors.New("story has no remarks")\n	}\n\n	return buffer'),'import (\n	"bytes"\n	"errors"\n)')
# bits
CP=C+'character/paths.go'
def bits(id,body,imp='"fmt"'):
    r(id,(CP,'import (\n	"fmt"\n)','import (\n'+''.join('	'+x+'\n' for x in imp.split(',') if x)+')'),(CP,'@func (p *paths) collect','func (p *paths) collect(integer rune) (path, error) {\n'+body+'}\n'))
bits('B23-sprintf-08','''
	bitNames := fmt.Sprintf("%b", uint32(integer))
	bitValues := make(path, 0, len(bitNames))
	for _, bitName := range bitNames {
		bitValues = append(bitValues, bitName != '0')
	}

	return bitValues, nil
''')
bits('B24-div','''
	if integer == 0 {
		return path{false}, nil
	}

	var bitValues path
	for rest := integer; rest > 0; rest /= 2 {
		bitValues = append(bitValues, rest%2 == 1)
	}

	return bitValues.reverse(), nil
''','')
bits('B25-mask','''
	length := bits.Len32(uint32(integer))
	if length == 0 {
		length = 1
	}

	bitValues := make(path, length)
	for i := range bitValues {
		bitValues[i] = integer>>uint(length-1-i)&1 == 1
	}

	return bitValues, nil
''','"math/bits"')
bits('B26-appendint','''
	bitNames := strconv.AppendInt(nil, int64(integer), 2)
	bitValues := make(path, len(bitNames))
	for i, bitName := range bitNames {
		switch bitName {
		case '0':
			bitValues[i] = false
		case '1':
			bitValues[i] = true
		default:
			return path{}, fmt.Errorf("invalid bit name: %c", bitName)
		}
	}

	return bitValues, nil
''','"fmt","strconv"')
AG=C+'character/aggragate.go'
OLD='''	var integer int32

	for _, bitValue := range path.reverse() {
		integer <<= 1
		if bitValue {
			integer += 1
		}
	}

	return integer, nil
'''
r('B27-weights',(AG,OLD,'''	integer, weight := rune(0), rune(1)
	for _, bitValue := range path {
		if bitValue {
			integer += weight
		}
		weight *= 2
	}

	return integer, nil
'''))
r('B28-setbit',(AG,OLD,'''	var integer rune
	for position, bitValue := range path {
		if bitValue {
			integer |= 1 << uint(position)
		}
	}

	return integer, nil
'''))
r('B29-double',(AG,OLD,'''	integer := rune(0)
	for _, bitValue := range path.reverse() {
		if bitValue {
			integer = 2*integer + 1
		} else {
			integer = 2 * integer
		}
	}

	return integer, nil
'''))
r('B30-parse',(AG,OLD,'''	names := make([]byte, 0, len(path))
	for _, bitValue := range path.reverse() {
		name := byte('0')
		if bitValue {
			name = '1'
		}
		names = append(names, name)
	}

	integer, err := strconv.ParseInt(string(names), 2, 64)
	if err != nil {
		return 0, err
	}

	return rune(integer), nil
'''),(AG,'import (\n','import (\n	"strconv"\n\n'))
# word reader
WA=C+'word/aggregate.go'
WOLD='''	path := a.paths.create(characterValue)
'''
r('B31-builder-prepend',(WA,'@func (a Aggregate) Extract','''func (a Aggregate) Extract() (string, error) {

	text := ""
	element := a.wordElements.CreateLastElement(a.word)

	for {
		value, err := element.ExtractCharacterValue()
		if err != nil {
			return "", err
		}

		text = string(value) + text

		hasPrevious, err := element.HasPreviousElement()
		if err != nil {
			return "", err
		}

		if !hasPrevious {
			return text, nil
		}

		if element, err = element.GetPreviousElement(); err != nil {
			return "", err
		}
	}
}
'''))
r('B32-sprintf-prepend',(WA,'@func (a Aggregate) Extract','''func (a Aggregate) Extract() (string, error) {

	element := a.wordElements.CreateLastElement(a.word)

	value, err := element.ExtractCharacterValue()
	if err != nil {
		return "", err
	}

	text := fmt.Sprintf("%c", value)

	for {
		hasPrevious, err := element.HasPreviousElement()
		if err != nil {
			return "", err
		}

		if !hasPrevious {
			break
		}

		element, err = element.GetPreviousElement()
		if err != nil {
			return "", err
		}

		value, err := element.ExtractCharacterValue()
		if err != nil {
			return "", err
		}

		text = fmt.Sprintf("%c%s", value, text)
	}

	return text, nil
}
'''),(WA,'import (\n','import (\n	"fmt"\n\n'))
r('B33-recursive-text',(WA,'@func (a Aggregate) Extract','''func (a Aggregate) Extract() (string, error) {

	return a.textUntil(a.wordElements.CreateLastElement(a.word))
}

func (a Aggregate) textUntil(element abstractWord.Element) (string, error) {

	value, err := element.ExtractCharacterValue()
	if err != nil {
		return "", err
	}

	hasPrevious, err := element.HasPreviousElement()
	if err != nil {
		return "", err
	}

	if !hasPrevious {
		return string(value), nil
	}

	previous, err := element.GetPreviousElement()
	if err != nil {
		return "", err
	}

	text, err := a.textUntil(previous)
	if err != nil {
		return "", err
	}

	return text + string(value), nil
}
'''))
r('B34-utf8-encode',(C+'word/path.go','@func (p path) toString','''func (p path) toString() string {

	buffer := make([]byte, 0, len(p))
	for _, character := range p {
		buffer = append(buffer, string(character)...)
	}

	return string(buffer)
}
'''))
r('B35-append-rune',(C+'word/path.go','@func (p path) toString','''func (p path) toString() string {

	var buffer []byte
	for _, character := range p {
		buffer = utf8.AppendRune(buffer, character)
	}

	return string(buffer)
}
'''),(C+'word/path.go','package word\n','package word\n\nimport "unicode/utf8"\n'))
r('B36-context',('output.go','@func (o *Output) GetStory','''func (o *Output) GetStory(remark Remark) (string, error) {

	return o.getStory(context.Background(), remark)
}

func (o *Output) getStory(_ context.Context, remark Remark) (string, error) {
'''+LOOP%('var buffer bytes.Buffer','''buffer.WriteString(object)
		buffer.WriteString(" ")
		buffer.WriteString(property)
		buffer.WriteString(" ")''','buffer.String()')+'}\n'),('output.go','import "bytes"','import (\n	"bytes"\n	"context"\n)'))
r('B37-stringer',(C+'phrase/path.go','@func (p path) toString','''func (p path) toString() string {

	text := ""
	for i := range p {
		if i != 0 {
			text += " "
		}
		text += p[i]
	}

	return text
}
'''),(C+'phrase/path.go','import "strings"\n',''))
r('B38-trimsuffix',(C+'phrase/path.go','@func (p path) toString','''func (p path) toString() string {

	var builder strings.Builder
	for _, word := range p {
		builder.WriteString(word)
		builder.WriteByte(' ')
	}

	return strings.TrimSuffix(builder.String(), " ")
}
'''))
r('B39-drop-last',(C+'phrase/path.go','@func (p path) toString','''func (p path) toString() string {

	text := ""
	for _, word := range p {
		text += word + " "
	}

	return text[:len(text)-1]
}
'''),(C+'phrase/path.go','import "strings"\n',''))

VAL='''
func (r *Repository) Provide(object string, property string) (abstractDetail.Aggregate, error) {

	for _, text := range []string{object, property} {
		if err := validate(text); err != nil {
			return nil, err
		}
	}

	return r.provide(object, property)
}

func validate(text string) error {
%s
}

func (r *Repository) provide(object string, property string) (abstractDetail.Aggregate, error) {

	objectPhrase, err := r.phraseRepository.Provide(object)
	if err != nil {
		return nil, err
	}

	propertyPhrase, err := r.phraseRepository.Provide(property)
	if err != nil {
		return nil, err
	}

	class, err := r.classRepository.ProvideEntity()
	if err != nil {
		return nil, err
	}

	detail, err := r.detailFactory.ProvideEntity(class, objectPhrase, propertyPhrase)
	if err != nil {
		return nil, err
	}

	return Aggregate{
		detail:           detail,
		detailStorage:    r.detailStorage,
		detailFactory:    r.detailFactory,
		classRepository:  r.classRepository,
		phraseRepository: r.phraseRepository,
	}, nil
}
'''
def val(id,imp,body):
    f=C+'detail/repository.go'
    r(id,(f,'import (\n','import (\n'+''.join('	"'+i+'"\n' for i in imp.split(','))),(f,'@func (r *Repository) Provide',VAL%body))
val('B40-validate-split','fmt,strings','''
	for _, word := range strings.Split(text, " ") {
		if word == "" {
			return fmt.Errorf("empty word in text: %q", text)
		}
	}

	return nil''')
val('B41-validate-prefix','fmt,strings','''
	switch {
	case text == "":
		return fmt.Errorf("empty text")
	case strings.HasPrefix(text, " "), strings.HasSuffix(text, " "), strings.Contains(text, "  "):
		return fmt.Errorf("empty word in text: %q", text)
	default:
		return nil
	}''')
val('B42-validate-index','errors,strings','''
	if len(text) == 0 || text[0] == ' ' || text[len(text)-1] == ' ' || strings.Index(text, "  ") >= 0 {
		return errors.New("empty word in text")
	}

	return nil''')
val('B43-validate-bytes','errors','''
	previous := byte(' ')
	for i := 0; i < len(text); i++ {
		if text[i] == ' ' && previous == ' ' {
			return errors.New("empty word in text")
		}
		previous = text[i]
	}

	if previous == ' ' {
		return errors.New("empty word in text")
	}

	return nil''')
val('B44-validate-trim','errors,strings','''
	if text == "" || strings.Trim(text, " ") != text || strings.Contains(text, "  ") {
		return errors.New("empty word in text")
	}

	return nil''')
val('B45-validate-padded','errors,strings','''
	if strings.Contains(" "+text+" ", "  ") {
		return errors.New("empty word in text")
	}

	return nil''')
val('B46-validate-count','errors,strings','''
	words := strings.Split(text, " ")
	empty := 0
	for _, word := range words {
		if len(word) == 0 {
			empty++
		}
	}

	if empty != 0 {
		return errors.New("empty word in text")
	}

	return nil''')
val('B47-validate-flag','errors,strings','''
	valid := text != ""
	for _, word := range strings.Split(text, " ") {
		valid = valid && word != ""
	}

	if !valid {
		return errors.New("empty word in text")
	}

	return nil''')

val('B48-validate-pairs','errors','''
	last := len(text) - 1
	if last < 0 || text[0] == ' ' || text[last] == ' ' {
		return errors.New("empty word in text")
	}

	for i := 1; i < len(text); i++ {
		if text[i] == ' ' && text[i-1] == ' ' {
			return errors.New("empty word in text")
		}
	}

	return nil''')
val('B49-validate-runes','errors','''
	runes := []rune(text)
	if len(runes) == 0 || runes[0] == ' ' || runes[len(runes)-1] == ' ' {
		return errors.New("empty word in text")
	}

	for i := range runes[1:] {
		if runes[i] == ' ' && runes[i+1] == ' ' {
			return errors.New("empty word in text")
		}
	}

	return nil''')
val('B50-validate-cut','errors,strings','''
	for rest, found := text, true; found; {
		var word string
		word, rest, found = strings.Cut(rest, " ")
		if word == "" {
			return errors.New("empty word in text")
		}
	}

	return nil''')
val('B51-validate-fields','errors,strings','''
	fields := strings.FieldsFunc(text, func(r rune) bool { return r == ' ' })
	if len(fields) == 0 || strings.Join(fields, " ") != text {
		return errors.New("empty word in text")
	}

	return nil''')
val('B52-validate-regexp','errors,regexp','''
	if !regexp.MustCompile("^[^ ]+( [^ ]+)*$").MatchString(text) {
		return errors.New("empty word in text")
	}

	return nil''')
val('B53-validate-utf8','errors,unicode/utf8','''
	if !utf8.ValidString(text) {
		return errors.New("text is not valid UTF-8")
	}

	return nil''')
