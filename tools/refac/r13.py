C='internal/concrete/'
R=[]
def r(id,*e): R.append(dict(id=id,edits=list(e)))
RR=C+'remark/repository.go'
RS=C+'remark/storage.go'
r('D01-has-first',(RS,'@func (s *Storage) ReadEntityByClass','''func (s *Storage) ReadEntityByClass(class uint) (abstractRemark.Entity, error) {

	has, err := s.storage.Has(class)
	if err != nil {
		return Entity{}, err
	}

	if !has {
		return Entity{}, fmt.Errorf("no node %d", class)
	}

	_, detail, err := s.storage.GetReference(class)
	if err != nil {
		return Entity{}, err
	}

	_, position, err := s.storage.GetReference(detail)
	if err != nil {
		return Entity{}, err
	}

	_, fact, err := s.storage.GetReference(position)
	if err != nil {
		return Entity{}, err
	}

	return Entity{
		class:    class,
		detail:   detail,
		position: position,
		fact:     fact,
		storage:  s.storage,
	}, nil
}
'''),(RS,'import (\n','import (\n	"fmt"\n'))
IDEM='''func (e Entity) %s(%s uint) error {

	targets, err := e.storage.ReadTargets(e.%s)
	if err != nil {
		return err
	}

	for _, target := range targets {
		if target == %s {
			return nil
		}
	}

	return e.storage.Connect(e.%s, %s)
}
'''
def idem(id,l,m,p,f): r(id,(C+l+'/entity.go','@func (e Entity) '+m,IDEM%(m,p,f,p,f,p)))
idem('D02-idem-word','word','PointToWord','word','word')
idem('D03-idem-char','word','PointToCharacter','character','character')
idem('D04-idem-remark','fact','PointToRemark','remark','remark')
idem('D05-idem-story','fact','PointToStory','story','story')
idem('D06-idem-tree','story','PointToTree','tree','tree')
idem('D07-idem-position','story','PointToPosition','position','position')
idem('D08-idem-detail','detail','PointToRemark','remark','remark')
idem('D09-idem-phrase','word','PointToPhrase','phrase','phrase')
# once more class checks
r('D10-word-class',(C+'word/repository.go','@func (r *Repository) Fetch','''func (r *Repository) Fetch(phrase uint) (abstractWord.Aggregate, error) {

	word, err := r.wordStorage.ReadEntityByPhrase(phrase)
	if err != nil {
		return nil, err
	}

	if word.GetPhrase() != phrase {
		return nil, fmt.Errorf("word has wrong phrase: %d", phrase)
	}

	return Aggregate{
		word:         word,
		wordElements: r.wordElements,
		paths:        r.paths,
	}, nil
}
'''),(C+'word/repository.go','import (\n','import (\n	"fmt"\n'))
r('D11-fact-check',(C+'fact/aggregate.go','''	nextFact, err := a.factStorage.ReadEntityByPosition(nextFactIdentifier)
	if err != nil {
		return nil, err
	}
''','''	nextFact, err := a.factStorage.ReadEntityByPosition(nextFactIdentifier)
	if err != nil {
		return nil, err
	}

	if nextFact.GetPosition() != nextFactIdentifier {
		return nil, fmt.Errorf("fact has wrong position")
	}
'''),(C+'fact/aggregate.go','import (\n','import (\n	"fmt"\n'))
r('D12-debug-var',('graph.go','@func (g *Graph) CreateStory','''var debug = false

func (g *Graph) CreateStory(object string, property string) (Remark, error) {

	if debug {
		log.Printf("create story %s %s", object, property)
	}

	aggregate, err := g.remarkRepository.CreateFirstUserRemark(object, property)
	if err != nil {
		return Remark{}, err
	}

	return Remark{Aggregate: aggregate}, nil
}
'''),('graph.go','import (\n','import (\n	"log"\n\n'))
r('D13-debug-const',('graph.go','@func (g *Graph) CreateStory','''const debug = false

func (g *Graph) CreateStory(object string, property string) (Remark, error) {

	if debug {
		log.Printf("create story %s %s", object, property)
	}

	aggregate, err := g.remarkRepository.CreateFirstUserRemark(object, property)
	if err != nil {
		return Remark{}, err
	}

	return Remark{Aggregate: aggregate}, nil
}
'''),('graph.go','import (\n','import (\n	"log"\n\n'))
r('D14-logger-field',('graph.go','''type Graph struct {
''','''type logger interface {
	Printf(format string, args ...interface{})
}

type Graph struct {
	log logger
'''),('graph.go','@func (g *Graph) CreateStory','''func (g *Graph) CreateStory(object string, property string) (Remark, error) {

	if g.log != nil {
		g.log.Printf("create story %s %s", object, property)
	}

	aggregate, err := g.remarkRepository.CreateFirstUserRemark(object, property)
	if err != nil {
		return Remark{}, err
	}

	return Remark{Aggregate: aggregate}, nil
}
'''))
r('D15-options',('graph.go','func NewGraph(storage abstract.Storage) *Graph {','''// Option changes a graph before it is used.
type Option func(*Graph)

func NewGraph(storage abstract.Storage, options ...Option) *Graph {

	graph := newGraph(storage)
	for _, option := range options {
		option(graph)
	}

	return graph
}

func newGraph(storage abstract.Storage) *Graph {'''))
r('D16-atomic',('graph.go','''type Graph struct {
''','''type Graph struct {
	calls            uint64
'''),('graph.go','''	aggregate, err := g.remarkRepository.CreateFirstUserRemark(object, property)''','''	atomic.AddUint64(&g.calls, 1)

	aggregate, err := g.remarkRepository.CreateFirstUserRemark(object, property)'''),('graph.go','import (\n','import (\n	"sync/atomic"\n\n'))
r('D17-decorator',('graph.go','func NewGraph(storage abstract.Storage) *Graph {','''type described struct {
	abstract.Storage
}

func (d described) Connect(source uint, target uint) error {

	if err := d.Storage.Connect(source, target); err != nil {
		return fmt.Errorf("connect %d to %d: %w", source, target, err)
	}

	return nil
}

func (d described) ReadTargets(source uint) ([]uint, error) {

	targets, err := d.Storage.ReadTargets(source)
	if err != nil {
		return nil, fmt.Errorf("read targets of %d: %w", source, err)
	}

	return targets, nil
}

func NewGraph(storage abstract.Storage) *Graph {

	storage = described{Storage: storage}
'''),('graph.go','import (\n','import (\n	"fmt"\n\n'))
r('D18-defer-wrap',('graph.go','@func (g *Graph) GetRemark','''func (g *Graph) GetRemark(remarkIdentifier uint) (remark Remark, err error) {

	defer func() {
		if err != nil {
			remark = Remark{}
			err = fmt.Errorf("remark %d: %w", remarkIdentifier, err)
		}
	}()

	remark.Aggregate, err = g.remarkRepository.GetRemark(remarkIdentifier)

	return remark, err
}
'''),('graph.go','import (\n','import (\n	"fmt"\n\n'))
r('D19-output-writeto',('output.go','@func (o *Output) GetStory','''func (o *Output) GetStory(remark Remark) (string, error) {

	buffer := &bytes.Buffer{}

	if err := o.WriteStory(buffer, remark); err != nil {
		return "", err
	}

	return buffer.String(), nil
}

// WriteStory writes a story.
func (o *Output) WriteStory(writer io.Writer, remark Remark) error {

	factRemark, err := remark.GetFirstFact()
	if err != nil {
		return err
	}

	for {
		object, property, err := factRemark.GetObjectAndProperty()
		if err != nil {
			return err
		}

		if _, err := fmt.Fprintf(writer, "%s %s ", object, property); err != nil {
			return err
		}

		hasNextRemark, err := factRemark.HasNextRemark()
		if err != nil {
			return err
		}

		if !hasNextRemark {
			return nil
		}

		factRemark, err = factRemark.GetNextRemark()
		if err != nil {
			return err
		}
	}
}
'''),('output.go','import "bytes"','import (\n	"bytes"\n	"fmt"\n	"io"\n)'))
r('D20-output-writer-method',('output.go','@func (o *Output) GetStory','''func (o *Output) GetStory(remark Remark) (string, error) {

	var builder strings.Builder

	if err := o.WriteStory(&builder, remark); err != nil {
		return "", err
	}

	return builder.String(), nil
}

// WriteStory writes a story.
func (o *Output) WriteStory(writer io.Writer, remark Remark) error {

	factRemark, err := remark.GetFirstFact()
	if err != nil {
		return err
	}

	for {
		object, property, err := factRemark.GetObjectAndProperty()
		if err != nil {
			return err
		}

		if _, err := writer.Write([]byte(object + " " + property + " ")); err != nil {
			return err
		}

		hasNextRemark, err := factRemark.HasNextRemark()
		if err != nil {
			return err
		}

		if !hasNextRemark {
			return nil
		}

		factRemark, err = factRemark.GetNextRemark()
		if err != nil {
			return err
		}
	}
}
'''),('output.go','import "bytes"','import (\n	"io"\n	"strings"\n)'))
r('D21-recover',('graph.go','@func (g *Graph) GetRemark','''func (g *Graph) GetRemark(remarkIdentifier uint) (remark Remark, err error) {

	defer func() {
		if recovered := recover(); recovered != nil {
			remark, err = Remark{}, fmt.Errorf("remark %d: %v", remarkIdentifier, recovered)
		}
	}()

	aggregate, err := g.remarkRepository.GetRemark(remarkIdentifier)
	if err != nil {
		return Remark{}, err
	}

	return Remark{Aggregate: aggregate}, nil
}
'''),('graph.go','import (\n','import (\n	"fmt"\n\n'))
r('D22-zero-id',('graph.go','''	aggregate, err := g.remarkRepository.GetRemark(remarkIdentifier)''','''	if remarkIdentifier == 0 {
		return Remark{}, errors.New("no remark has identifier 0")
	}

	aggregate, err := g.remarkRepository.GetRemark(remarkIdentifier)'''),('graph.go','import (\n','import (\n	"errors"\n\n'))
r('D23-class-id',('graph.go','''	aggregate, err := g.remarkRepository.GetRemark(remarkIdentifier)''','''	if remarkIdentifier <= 8 {
		return Remark{}, errors.New("identifier of a class")
	}

	aggregate, err := g.remarkRepository.GetRemark(remarkIdentifier)'''),('graph.go','import (\n','import (\n	"errors"\n\n'))
r('D24-nil-remark',('output.go','''	factRemark, err := remark.GetFirstFact()''','''	if remark.Aggregate == nil {
		return "", errors.New("no remark")
	}

	factRemark, err := remark.GetFirstFact()'''),('output.go','import "bytes"','import (\n	"bytes"\n	"errors"\n)'))
r('D25-nil-storage',('graph.go','''	classRepository := class.NewRepository(storage)
''','''	if storage == nil {
		panic("semnet: no storage")
	}

	classRepository := class.NewRepository(storage)
'''))
r('D26-verify-create',(C+'fact/repository.go','''	nextFact, err := r.factStorage.CreateEntity(classIdentifier)
	if err != nil {
		return nil, err
	}
''','''	nextFact, err := r.factStorage.CreateEntity(classIdentifier)
	if err != nil {
		return nil, err
	}

	if nextFact.GetClass() != classIdentifier {
		return nil, errors.New("fact of another class")
	}
'''),(C+'fact/repository.go','import (\n','import (\n	"errors"\n\n'))
r('D27-self-guard',(C+'fact/repository.go','''	err = lastFact.PointToPosition(nextFact.GetPosition())''','''	if lastFact.GetPosition() == nextFact.GetPosition() {
		return nil, errors.New("fact follows itself")
	}

	err = lastFact.PointToPosition(nextFact.GetPosition())'''),(C+'fact/repository.go','import (\n','import (\n	"errors"\n\n'))
r('D28-max-guard',(C+'word/repository.go','''	wordElement, err := r.wordElements.ProvideFirstElement(path[0])''','''	first, rest := path[0], path[1:]

	wordElement, err := r.wordElements.ProvideFirstElement(first)'''),(C+'word/repository.go','range path[1:]','range rest'))
r('D29-story-string',(C+'phrase/aggregate.go','	return path.reverse().toString(), nil','	text := path.reverse().toString()\n	if text == "" {\n		return "", errors.New("empty phrase")\n	}\n\n	return text, nil'),(C+'phrase/aggregate.go','import abstractPhrase','import "errors"\nimport abstractPhrase'))
r('D30-word-nonempty',(C+'word/aggregate.go','	return path.reverse().toString(), nil','	if len(path) == 0 {\n		return "", errors.New("empty word")\n	}\n\n	return path.reverse().toString(), nil'),(C+'word/aggregate.go','import (\n','import (\n	"errors"\n\n'))
