# Regenerates /verif/properties.jsonl (kept as a script so that the long texts stay readable).
import json
I='internal/concrete/'
P=[]
def p(id,title,st,over,qt,why,files,mech,state=(),obs=()):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=None)))
inp=['inputs','histories']
p('C01','Stored text reads back unchanged',
  'For every object and property made of non-empty words of valid UTF-8 separated by single spaces, the object and property read from a remark are exactly the ones it was created with, in that order. This holds for every character, word length and number of words, whatever was stored before or is stored later.',
  inp,'all object and property texts, all histories of earlier and later operations',
  'The one end-to-end test stores five short ASCII phrases; the unit tests of words and phrases return before they compare anything. Encoding, tree walking and linking can go wrong for other characters, shared prefixes or longer histories.',
  [I+'character/paths.go',I+'character/path.go',I+'character/repository.go',I+'character/element.go',I+'character/elements.go',I+'character/factory.go',I+'character/aggragate.go',I+'character/entity.go',I+'word/paths.go',I+'word/path.go',I+'word/repository.go',I+'word/element.go',I+'word/elements.go',I+'word/factory.go',I+'word/aggregate.go',I+'word/entity.go',I+'phrase/paths.go',I+'phrase/path.go',I+'phrase/repository.go',I+'phrase/element.go',I+'phrase/elements.go',I+'phrase/factory.go',I+'phrase/aggregate.go',I+'phrase/entity.go',I+'detail/aggregate.go',I+'detail/entity.go',I+'detail/storage.go',I+'remark/aggregate.go',I+'remark/entity.go'],
  [('split/join of a value into its parts','paths.collect, path.reverse, path.toString in character, word, phrase'),('prefix trees','Provide/Extract of the character, word and phrase repositories'),('object on the source side, property on the target side of a detail','detail.Storage.CreateEntity, detail.Entity.GetObjectAndPropertyPhrases')],
  obs=['Graph.CreateStory','Remark.GetObjectAndProperty','word.Aggregate.Extract','phrase.Aggregate.Extract','character.Aggregate.Extract'])
p('C02','Equal values share one stored identity, different values never do',
  'Storing a character, word, phrase or object-property pair that is already stored returns the identity it already has and adds no node and no link; storing a different one never returns that identity. An identity is added only when no stored one has the same value.',
  inp,'all values and all histories of stored values',
  'No existing test stores a value twice and compares identities; duplicates and false sharing depend on which prefixes are already in the trees.',
  [I+'character/element.go',I+'character/factory.go',I+'character/entity.go',I+'word/element.go',I+'word/factory.go',I+'word/entity.go',I+'phrase/element.go',I+'phrase/factory.go',I+'phrase/entity.go',I+'detail/factory.go',I+'bit/entity.go'],
  [('look up before create','Factory.ProvideHeadEntity, Element.ProvideNextElement, detail.Factory.ProvideEntity'),('has/get/point of one link use the same node','HasTarget*, GetTarget*, PointTo* of the entities')],
  obs=['Repository.Provide of character, word, phrase, detail'])
p('C03','An entity is the same whichever of its nodes it is read by',
  'Every node of a stored entity leads to the same complete set of nodes the entity was created with, so reading it through any of its nodes gives the same entity over the same storage. This holds for characters, words, phrases, details, remarks, facts and stories.',
  inp,'all entities of all layers and all nodes of each',
  'The tests read entities by at most two of their nodes and never compare the nodes with the created ones; several readers are not reached by any test.',
  [I+x+'/storage.go' for x in ('character','word','phrase','detail','remark','fact','story')]+[I+'bit/layer.go'],
  [('chain of references written on creation','CreateEntity of each layer'),('readers that walk the chain in both directions','ReadEntityBy* of each layer')],
  obs=['ReadEntityBy* of each layer','Graph.GetRemark'])
p('C04','A storage failure is always reported',
  'If any call to the storage made on behalf of an operation fails, the operation returns an error. It never returns a result computed after ignoring the failure.',
  ['fault_sequences','inputs','histories'],'every storage call of every operation failing, alone or together with others, in every state',
  'The end-to-end test uses a storage that never fails; the only failure test is in a package whose tests do not compile. One operation makes hundreds of storage calls, each of which may fail.',
  ['graph.go','output.go']+[I+x for x in ('bit','character','word','phrase','detail','remark','fact','story','class')],
  [('error checks after each call','every method that returns an error')],
  obs=['error results of Graph, Remark and Output methods'])
p('C05','No input and no stored state makes an operation panic',
  'No operation panics, for any text, any identifier and any answers of the storage, including failures and links that are missing or duplicated: it returns a result or an error. In particular it never returns success with a missing result, and a returned remark can be used for every further operation.',
  ['inputs','histories','fault_sequences'],'all texts, all identifiers, all answers the storage can give',
  'The tests use well-formed phrases and a healthy storage; nil results, index errors and missing dependencies show only for other inputs, failures, or second-step navigation.',
  ['graph.go','output.go']+[I+x for x in ('bit','character','word','phrase','detail','remark','fact','story','class')],
  [('length checks before indexing','GetTarget*/GetSource* of the entities, paths.collect'),('results checked before use','error checks after each call'),('results carry all dependencies','struct literals of Aggregate, Element and Entity')],
  obs=['Graph, Remark and Output methods'])
p('C06','Stored data is only ever added to',
  'No operation deletes a node, removes a link, or changes the reference of a node that existed before the operation. Everything stored earlier therefore stays where it is.',
  inp,'all operations in all states',
  'A test can only observe the few nodes it knows about; an overwritten reference or removed link elsewhere goes unnoticed.',
  [I+'*/storage.go',I+'*/entity.go',I+'class/repository.go',I+'bit/layer.go',I+'class/node/*.go'],
  [('only Create, Connect and SetReference on fresh nodes are used','all callers of the storage interface')],
  obs=['Disconnect, Delete, SetReference calls on the storage'])
p('C07','Reading never changes the storage',
  'Reading a remark, its object and property, checking for or moving to the first or next fact, remark or story, and rendering a story add no node, link or reference to a storage that already contains data.',
  inp,'all read operations in all states',
  'No test looks at the storage after a read operation.',
  ['graph.go','output.go',I+'remark/aggregate.go',I+'fact/aggregate.go',I+'detail/aggregate.go',I+'phrase/aggregate.go',I+'word/aggregate.go',I+'character/aggragate.go',I+'bit/layer.go',I+'class/repository.go'],
  [('read operations use Fetch/Read methods only','methods of the aggregates')],
  obs=['Create, Connect, SetReference calls on the storage during reads'])
p('C08','Every entity belongs to its class and classes never change',
  'Each bit, character, word, phrase, detail, remark, fact and story is registered with the class of its own kind, the eight classes are distinct and have the same identifiers in every store, and the class test of a kind accepts the entities created as that kind and no others.',
  inp,'all kinds of entities, all stores',
  'The class tests look at a fresh store only and check one kind; a mix-up between kinds, or between creating and testing, is invisible to them.',
  [I+'class/repository.go',I+'class/entity.go']+[I+'class/node/%s.go'%x for x in ('bit','character','word','phrase','detail','remark','fact','story')]+[I+x+'/factory.go' for x in ('character','word','phrase')]+[I+'detail/storage.go',I+'remark/repository.go',I+'remark/aggregate.go',I+'fact/repository.go',I+'story/repository.go',I+'bit/layer.go'],
  [('class identifiers by order of creation','class.Repository.ProvideEntity'),('Create*/Is* pairs','class.Entity and class/node')],
  obs=['links from entities to the class nodes 1..8','class.Entity.Is*'])
p('C09','A reopened graph continues where the old one stopped',
  'A new graph over a storage that already holds data finds the same classes and bits, creates them only when the storage holds none, and behaves as the graph that wrote the data would. Nothing an operation relies on is kept only in the memory of a graph.',
  ['histories','inputs'],'all points of a history at which the graph is replaced by a new one over the same storage',
  'No test opens a second graph over a used storage.',
  [I+'class/repository.go',I+'bit/layer.go',I+'bit/repository.go','graph.go'],
  [('initialise only if the first class node is missing','class.Repository.ProvideEntity'),('initialise bits only if none is registered','bit.layer.initialize')],
  state=[('isInitialized/entity','cached classes','class.Repository'),('isInitialized/zeroEntity/oneEntity','cached bits','bit.layer')],
  obs=['NewGraph over a used storage'])
p('C10','Results depend only on the arguments and the storage',
  'Operations use nothing but their arguments and the storage the graph was created with: no package-level state, time, randomness, environment, files, output, goroutines or map order. Graphs over different storages never influence each other, and the same history gives the same storage calls in the same order.',
  ['programs','histories','schedules'],'all operations, any number of graphs in one process',
  'Tests run one graph at a time and cannot show the absence of shared state or of a nondeterministic choice.',
  ['graph.go','output.go','internal/concrete'],
  [('every component receives the storage from NewGraph','graph.go NewGraph and the NewRepository functions')],
  obs=['whole program'])
p('C11','A remark is found again by its identifier, and only a remark is',
  'Getting a remark by the identifier of a remark gives that remark: same identifier, same object and property, same fact. Getting a remark by an identifier that belongs to anything else reports an error.',
  inp,'all remarks and all other identifiers',
  'The test gets one remark by identifier and only looks at the rendered story; no test passes an identifier of another kind.',
  [I+'remark/repository.go',I+'remark/storage.go',I+'remark/aggregate.go','graph.go',I+'class/node/remark.go'],
  [('identifier is the class node of the remark','remark.Aggregate.GetIdentifier, remark.Storage.ReadEntityByClass'),('class check','remark.Repository.GetRemark')],
  obs=['Graph.GetRemark','Remark.GetIdentifier'])
p('C12','Every remark leads to the first fact of its own story',
  'Creating a story makes a remark that starts the first fact of a new story. From every remark of every fact of a story, going to the first fact gives exactly the remark that started that story, never one of another story.',
  inp,'all remarks of all stories after all histories',
  'The test has one story and goes to the first fact only from the remark that already is first.',
  [I+'remark/aggregate.go',I+'remark/entity.go',I+'remark/repository.go',I+'fact/aggregate.go',I+'fact/entity.go',I+'fact/repository.go',I+'story/entity.go',I+'story/repository.go'],
  [('remark-fact-story links in both directions','CreateFirstUserRemark, CreateFirstStoryFact, GetFirstFact, ToFirstFact')],
  obs=['Remark.GetFirstFact'])
p('C13','A remark added to a fact keeps its object and its fact',
  'Adding a remark to the fact of another remark creates a new remark whose object is the object of that remark, whose property is the given one, and which belongs to the same fact. The remark it was added to, and the remark that starts the fact, stay as they were.',
  inp,'all remarks and properties',
  'The test adds one remark to a fact and never asks for its fact.',
  [I+'remark/aggregate.go',I+'remark/entity.go',I+'detail/repository.go'],
  [('detail of the old object and the new property; link to the old fact','remark.Aggregate.AddRemarkToFact')],
  obs=['Remark.AddRemarkToFact'])
p('C14','A fact added to a story is its last fact and is reached from the others',
  'Adding a fact to the story of any remark creates a remark, with the given object and property, that starts a new last fact of that same story. Moving from fact to next fact visits the facts of a story in the order they were added, and a fact reports a next one exactly when there is one.',
  inp,'all stories, any number of added facts, starting from any remark',
  'The test adds one fact and never moves to it.',
  [I+'remark/aggregate.go',I+'fact/repository.go',I+'fact/aggregate.go',I+'fact/entity.go',I+'fact/storage.go'],
  [('walk to the last fact, then append','fact.Repository.CreateNextFact'),('first remark of the new fact','remark.Aggregate.AddFactToStory'),('next-fact link','fact.Aggregate.HasNextFact, ToNextFact')],
  obs=['Remark.AddFactToStory','Remark.HasNextFact','Remark.GetNextFact'])
p('C15','Child stories belong to their parent and follow each other',
  'Creating a child story from any remark creates a new story, started by a remark with the given object and property, whose parent is the story of that remark. Moving from story to next story visits the children of one parent in the order they were created and reports a next story exactly when there is one.',
  inp,'all trees of stories, any number of children at any depth',
  'No test creates a child story.',
  [I+'remark/aggregate.go',I+'fact/repository.go',I+'fact/aggregate.go',I+'story/entity.go',I+'story/storage.go',I+'story/repository.go'],
  [('child points to parent; last sibling points to child','fact.Repository.CreateChildStoryFact'),('next-story link','fact.Aggregate.HasNextStory, ToNextStory, HasParentStory, ToParentStory')],
  obs=['Remark.CreateChildStory','Remark.HasNextStory','Remark.GetNextStory'])
p('C16','A rendered story is the text of its first fact in order',
  'Rendering the story of any remark starts at the first fact of its story and gives, for each remark from there along the next-remark links, the object, a space, the property and a space, each exactly once and in order, until there is no next remark.',
  inp,'all stories and all remarks they are rendered from',
  'The test renders one story with one reachable remark.',
  ['output.go',I+'remark/aggregate.go',I+'remark/entity.go'],
  [('loop over the remarks','Output.GetStory'),('next-remark link','remark.Aggregate.HasNextRemark, GetNextRemark')],
  obs=['Output.GetStory'])
p('C17','A link that must be single is never guessed',
  'Whenever an operation follows a link that has to lead to exactly one place, it reports an error if the storage answers with none or with several, instead of picking one; and it answers that there is a next element exactly when following it would not fail for lack of one.',
  ['inputs','histories','fault_sequences'],'all answers of the storage to reads of links',
  'Tests never see a storage with a missing or doubled link.',
  [I+x+'/entity.go' for x in ('bit','character','word','phrase','detail','remark','fact','story')]+[I+'class/node/*.go'],
  [('length checks of the read links','GetTarget*/GetSource*/HasTarget*/HasSource* of the entities, Is of class/node')],
  obs=['entity readers of all layers'])
p('C18','An interrupted operation leaves nothing half-built in reach',
  'A new entity is linked from data that existed before only after its own references and links are complete. So when the storage fails in the middle of an operation, the operation can be repeated and later reads and writes give the same results as if it had never been tried.',
  ['crash_points','fault_sequences','histories'],'every storage call of every operation as the point of failure, followed by any history',
  'No test interrupts an operation; there are hundreds of interruption points per operation.',
  [I+'character/factory.go',I+'word/factory.go',I+'phrase/factory.go',I+'detail/storage.go',I+'fact/repository.go',I+'remark/aggregate.go',I+'bit/layer.go',I+'class/repository.go'],
  [('order of writes: complete first, publish last','Factory.ProvideHeadEntity, CreateTailEntity, detail.Storage.CreateEntity, fact.Repository')],
  obs=['order of storage calls'])
p('C19','Text with an empty word is rejected',
  'Every operation that takes an object or a property reports an error if the text is empty or contains an empty word (leading, trailing or doubled space), wherever in the text the empty word is. It accepts every other valid text.',
  ['inputs'],'all texts',
  'One unit test passes the empty text to the phrase and word layer; no test has an empty word after the first, and none goes through the public operations.',
  [I+'word/paths.go',I+'phrase/paths.go',I+'word/repository.go',I+'phrase/repository.go',I+'detail/repository.go',I+'remark/aggregate.go',I+'remark/repository.go'],
  [('length check of the letters of a word','word.paths.collect'),('error of any word fails the phrase','phrase.Repository.Provide')],
  obs=['Graph.CreateStory','Remark.AddRemarkToFact','Remark.AddFactToStory','Remark.CreateChildStory'])
p('C20','The two bits are distinct and keep their meaning',
  'A store has exactly one zero bit and one one bit; providing or fetching a bit always gives the one with the asked value or identity, and the same node stands for the same value in every graph opened over the store, in whatever order the storage lists them. Any other identifier, and any other number of stored bits, is an error.',
  ['inputs','histories'],'both values, all identifiers, all orders in which the storage lists the bits, all reopenings',
  'The bit tests use one graph over a fresh store.',
  [I+'bit/layer.go',I+'bit/repository.go',I+'bit/entity.go'],
  [('lower class identifier is zero','bit.layer.initialize'),('selection by value and by identity','bit.Repository.Provide, Fetch')],
  obs=['bit.Repository.Provide','bit.Repository.Fetch'])
p('C21','The stored layout does not change',
  'The nodes of an entity, and the parts of a character, word or phrase, are chained in a fixed order, and each kind of link always runs between the same two kinds of node in the same direction. So a store written by one version of the program is read correctly by another.',
  ['programs','histories'],'all writes and reads of all operations',
  'A consistent change of writer and reader passes every test that starts from an empty store.',
  [I+'*/storage.go',I+'*/entity.go',I+'*/factory.go',I+'fact/repository.go',I+'remark/aggregate.go',I+'remark/repository.go'],
  [('reference chains','CreateEntity of each layer'),('links','PointTo*, Add*Detail of the entities and their callers')],
  obs=['SetReference, Connect, GetReference, ReadTargets, ReadSources calls'])
p('C22','An operation that fails leaves the storage as it was',
  'When an operation reports an error, whether because of its input or of the storage, the storage contains exactly what it contained before.',
  ['inputs','fault_sequences','crash_points'],'all inputs and failure points',
  'No test compares the storage before and after a failed operation.',
  [I+'remark/repository.go',I+'remark/aggregate.go'],
  [('none: the storage interface has no transactions','internal/abstract/storage.go')],
  obs=['storage contents after an error'])
p('C23','One graph can be used from several goroutines',
  'Operations called concurrently on one graph behave as if they had been called one after the other.',
  ['schedules'],'all interleavings of concurrent operations on one graph',
  'No test is concurrent.',
  ['graph.go',I+'class/repository.go',I+'bit/layer.go'],
  [('none: no synchronisation anywhere','whole program')],
  obs=['Graph and Remark methods'])
p('C24','An operation stops at the first storage failure',
  'When a call to the storage fails, the operation makes no further change: after the failed call it creates no node, sets no reference, and adds or removes no link before it returns.',
  ['inputs','fault_sequences','histories'],'all operations, all inputs, and a failure of any one of their storage calls',
  'No test makes a storage call fail. Going on after a failure and reporting it only at the end passes every test, and so does checking the errors of two calls together.',
  ['remark.go','graph.go',I+'*/repository.go',I+'*/storage.go',I+'*/entity.go',I+'*/factory.go',I+'*/element.go',I+'*/aggregate.go',I+'class/node/*.go'],
  [('every error is checked before the next call','throughout')],
  obs=['storage calls made after one that failed'])
p('C25','Every operation ends',
  'Every operation makes finitely many storage calls and returns, for every text and every store the library has written, however many remarks, facts and stories it holds: each turn of a loop goes on to a further part, link or candidate, and nothing is tried again with everything as it was.',
  ['inputs','histories'],'all operations, all texts and all stores written by the library',
  'The walks to the last fact and the last child only take a turn when a story has a third fact or child, and a test that hangs says nothing about the inputs it does not try.',
  [I+'character/aggragate.go',I+'character/element.go',I+'character/repository.go',I+'word/aggregate.go',I+'word/element.go',I+'word/repository.go',I+'phrase/aggregate.go',I+'phrase/element.go',I+'phrase/repository.go',I+'detail/factory.go',I+'fact/repository.go','output.go'],
  [('walks along one link until there is none','fact.Repository.CreateNextFact, CreateChildStoryFact; Extract of character, word, phrase; Output.GetStory'),('loops over lists','ProvideNextElement, Provide, detail.Factory.ProvideEntity')],
  obs=['return of every public operation'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
