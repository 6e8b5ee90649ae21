R=[]
C='internal/concrete/'
def r(id,*edits): R.append(dict(id=id,edits=list(edits)))

r('z01-count-provided',(C+'word/repository.go','	paths        *paths\n}','	paths        *paths\n	provided     int\n}'),
 (C+'word/repository.go','	path, err := r.paths.collect(word)\n','	r.provided++\n\n	path, err := r.paths.collect(word)\n'))
r('z02-class-kept-remark',(C+'remark/repository.go','	factRepository   abstractFact.Repository\n}\n\nvar','	factRepository   abstractFact.Repository\n	class            abstractClass.Entity\n}\n\nfunc (r *Repository) provideClass() (abstractClass.Entity, error) {\n	if r.class == nil {\n		class, err := r.classRepository.ProvideEntity()\n		if err != nil {\n			return nil, err\n		}\n		r.class = class\n	}\n	return r.class, nil\n}\n\nvar'),
 (C+'remark/repository.go','r.classRepository.ProvideEntity()\n	if err != nil {\n		return nil, err\n	}\n\n','r.provideClass()\n	if err != nil {\n		return nil, err\n	}\n\n','all'))
r('z03-class-kept-story',(C+'story/repository.go','	classRepository abstractClass.Repository\n}','	classRepository abstractClass.Repository\n	class           abstractClass.Entity\n}'),
 (C+'story/repository.go','	class, err := r.classRepository.ProvideEntity()\n	if err != nil {\n		return nil, err\n	}\n','	if r.class == nil {\n		class, err := r.classRepository.ProvideEntity()\n		if err != nil {\n			return nil, err\n		}\n		r.class = class\n	}\n	class := r.class\n'))
r('z04-scratch',(C+'word/paths.go','type paths struct{}','type paths struct {\n	scratch []rune\n}'),
 (C+'word/paths.go','	newPath := make([]rune, 1)\n	newPath[0] = start\n\n	return newPath','	p.scratch = append(p.scratch[:0], start)\n\n	return p.scratch'))
r('z05-last-error',(C+'detail/repository.go','	phraseRepository abstractPhrase.Repository\n}','	phraseRepository abstractPhrase.Repository\n	lastError        error\n}'),
 (C+'detail/repository.go','	objectPhrase, err := r.phraseRepository.Provide(object)\n	if err != nil {\n','	objectPhrase, err := r.phraseRepository.Provide(object)\n	if err != nil {\n		r.lastError = err\n'))
r('z06-output-buffer',('output.go','type Output struct {\n	graph *Graph\n}','type Output struct {\n	graph  *Graph\n	buffer bytes.Buffer\n}'),
 ('output.go','	var buffer bytes.Buffer\n','	buffer := &o.buffer\n	buffer.Reset()\n'))
r('z07-class-in-closure',(C+'fact/repository.go','	storyRepository abstractStory.Repository\n}','	storyRepository abstractStory.Repository\n	provideClass    func() (abstractClass.Entity, error)\n}'),
 (C+'fact/repository.go','		storyRepository: storyRepository,\n	}\n}\n\nfunc (r *Repository) CreateFirst','		storyRepository: storyRepository,\n		provideClass:    onceClass(classRepository),\n	}\n}\n\nfunc onceClass(classRepository abstractClass.Repository) func() (abstractClass.Entity, error) {\n	var kept abstractClass.Entity\n	return func() (abstractClass.Entity, error) {\n		if kept != nil {\n			return kept, nil\n		}\n		class, err := classRepository.ProvideEntity()\n		if err != nil {\n			return nil, err\n		}\n		kept = class\n		return class, nil\n	}\n}\n\nfunc (r *Repository) CreateFirst'),
 (C+'fact/repository.go','r.classRepository.ProvideEntity()','r.provideClass()','all'))
r('z08-stats-map',(C+'remark/repository.go','	factRepository   abstractFact.Repository\n}\n\nvar','	factRepository   abstractFact.Repository\n	created          map[string]int\n}\n\nvar'),
 (C+'remark/repository.go','		factRepository:   factRepository,\n	}\n}','		factRepository:   factRepository,\n		created:          map[string]int{},\n	}\n}'),
 (C+'remark/repository.go','	// detail\n','	r.created[object]++\n\n	// detail\n'))
