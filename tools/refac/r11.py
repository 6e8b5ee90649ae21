C='internal/concrete/'
R=[]
def r(id,*e): R.append(dict(id=id,edits=list(e)))
def find(cmp,ret='errNone',decl='var errNone = errors.New("none")',imp='"errors"\n	"fmt"'):
    return ((C+'detail/factory.go','import (\n	"fmt"','import (\n	'+imp),
     (C+'detail/factory.go','@func (f *Factory) ProvideEntity','''
'''+decl+'''

func (f *Factory) common(objectTargetDetails []uint, propertySourceDetails []uint) (uint, error) {

	commonDetailIdentifiers := make([]uint, 0, 1)
	for _, objectTargetDetail := range objectTargetDetails {
		for _, propertySourceDetail := range propertySourceDetails {
			if propertySourceDetail == objectTargetDetail {
				commonDetailIdentifiers = append(commonDetailIdentifiers, propertySourceDetail)
			}
		}
	}

	if len(commonDetailIdentifiers) == 0 {
		return 0, '''+ret+'''
	}

	if len(commonDetailIdentifiers) > 1 {
		return 0, fmt.Errorf("phrases have too many common details")
	}

	return commonDetailIdentifiers[0], nil
}

func (f *Factory) ProvideEntity(
	classEntity abstractClass.Entity,
	objectPhrase abstractPhrase.Aggregate,
	propertyPhrase abstractPhrase.Aggregate,
) (abstractDetail.Entity, error) {

	objectTargetDetails, err := objectPhrase.GetTargetDetails()
	if err != nil {
		return nil, err
	}

	propertySourceDetails, err := propertyPhrase.GetSourceDetails()
	if err != nil {
		return nil, err
	}

	detail, err := f.common(objectTargetDetails, propertySourceDetails)
	'''+cmp+'''
		return f.storage.CreateEntity(classEntity, objectPhrase, propertyPhrase)
	}

	if err != nil {
		return nil, err
	}

	return f.storage.ReadEntityByPhrase(detail)
}
'''))
r('e01-sentinel-is',*find('if errors.Is(err, errNone) {'))
r('e02-sentinel-eq',*find('if err == errNone {'))
r('e03-sentinel-wrapped',*find('if errors.Is(err, errNone) {','fmt.Errorf("details: %w", errNone)'))
r('e04-error-type',*find('var none noneError\n	if errors.As(err, &none) {','noneError{}','type noneError struct{}\n\nfunc (noneError) Error() string {\n	return "none"\n}\n'))
r('e05-error-pointer',*find('var none *noneError\n	if errors.As(err, &none) {','&noneError{len(objectTargetDetails)}','type noneError struct{ n int }\n\nfunc (e *noneError) Error() string {\n	return fmt.Sprint(e.n)\n}\n'))
# a sentinel with the storage failures in the same result
def word(cmp,ret='errNoPhrase'):
    return ((C+'phrase/factory.go','import (','import (\n	"errors"\n	"fmt"\n'),(C+'phrase/factory.go','''type Factory struct {''','''var errNoPhrase = errors.New("no phrase")

func (f *Factory) head(wordAggregate abstractWord.Aggregate) (abstractPhrase.Entity, error) {

	hasTargetPhrase, err := wordAggregate.HasTargetPhrase()
	if err != nil {
		return nil, fmt.Errorf("head: %w", err)
	}

	if !hasTargetPhrase {
		return nil, '''+ret+'''
	}

	word, err := wordAggregate.GetTargetPhrase()
	if err != nil {
		return nil, err
	}

	return f.phraseStorage.ReadEntityByWord(word)
}

type Factory struct {'''),(C+'phrase/factory.go','''	hasTargetPhrase, err := wordAggregate.HasTargetPhrase()
	if err != nil {
		return nil, err
	}

	if !hasTargetPhrase {

''','''	head, err := f.head(wordAggregate)
	'''+cmp+'''

'''),(C+'phrase/factory.go','''	word, err := wordAggregate.GetTargetPhrase()
	if err != nil {
		return nil, err
	}

	return f.phraseStorage.ReadEntityByWord(word)
}

func (f *Factory) CreateTail''','''	return head, err
}

func (f *Factory) CreateTail'''))
r('e06-head-is',*word('if errors.Is(err, errNoPhrase) {'))
r('e07-head-eq',*word('if err == errNoPhrase {'))
r('e08-head-wrapped',*word('if errors.Is(err, errNoPhrase) {','fmt.Errorf("word: %w", errNoPhrase)'))
r('e09-head-switch',*word('switch err {\n	case nil:\n		return head, nil\n	case errNoPhrase:'))
r('e10-join',(C+'fact/entity.go','import (','import (\n	"errors"\n'),(C+'fact/entity.go','	return e.storage.Connect(e.remark, remark)','	return errors.Join(e.storage.Connect(e.remark, remark))'))
