package main

var commonAssumptions = []string{
	"the storage behaves as its interface says: links and references change only through the calls made on it, Create returns a node that was not there, the first node of an empty storage is 1 and the others follow, links form sets (a repeated Connect adds nothing), ReadTargets and ReadSources return what was connected, GetReference what was set",
	"go/types and golang.org/x/tools/go/ssa represent the source faithfully; the functions of the standard library that are used behave as documented",
	"one operation runs at a time on a graph and its storage, and nothing else writes to the storage",
}

var assumptions = map[string][]string{
	"C01": {"text is valid UTF-8 (other text is read as the Go range statement reads it)"},
	"C03": {"stored entities were written by CreateEntity of their layer, whose chain is checked in the same run"},
	"C14": {"the oldest link is the first one the storage lists (the order of ReadTargets is the order of Connect)"},
	"C15": {"the oldest link is the first one the storage lists (the order of ReadTargets is the order of Connect)"},
	"C11": {"nodes of a store carry the links their kind carries in the layout (C21)"},
	"C12": {"nodes of a store carry the links their kind carries in the layout (C21)"},
}

// ruleText says what is decided for each property.
var ruleText = map[string]string{
	"C01": "Rules: the parts a text is split into are compared as sequences with the ones the reader joins (bits of a character, characters of a word, words of a phrase); the links the tree walk makes and follows are compared with the layout; the reader's walk is the inverse of the writer's chain; object and property of a pair are read from the sides they were written to. Together these give the round trip by induction on the number of parts; the induction itself is argued in DESIGN.md, its cases are the obligations.",
	"C02": "Rules: each step of the tree walk reuses the linked node exactly when the link that decides it is there and creates one otherwise, with the very links that the next lookup reads; for a pair of phrases the loop returns a detail exactly when it belongs to both sides. Decided: which lookups guard which creations, on which nodes; not decided by enumeration of texts.",
	"C03": "Rules: CreateEntity chains its nodes in a fixed order; every reader, started at any node of the chain, yields exactly those nodes in those fields, over the same storage; aggregates hand the right node to the right reader.",
	"C04": "Rule: under the condition that the error of a storage call is not nil, no return without an error is reachable. One obligation per storage call (call site in the context of an operation, in loops too).",
	"C05": "Rules: no index, slice, nil dereference, nil method call, type assertion, division or explicit panic is reachable under its failing condition; a return without error has no missing part; results carry their dependencies.",
	"C06": "Rules: no reachable Disconnect or Delete; the node whose reference is set was created by the same operation (or is a class node just made).",
	"C07": "Rule: no write to the storage is reachable from a reading operation, except making classes and bits in a storage that has none.",
	"C08": "Rules: each entity made is registered with its class constant, in its class node; the class nodes are 1 to 8 and chained in order; each class test reads the class link of its own kind.",
	"C09": "Rules: classes and bits are made only under the condition that the storage has none, read from it otherwise with the same meaning, and what a graph remembers equals what it read; no operation changes memory that a later one reads, other than these.",
	"C10": "Rules: no reachable package-level write, goroutine, channel, select, map order, clock, random, environment, file or output dependence; only allowed standard functions; only the storage passed to NewGraph is called.",
	"C11": "Rules: the identifier given out is the node that GetRemark reads; GetRemark succeeds only if the node has a single source registered with the remark class; object, property and fact come from the entity of that node.",
	"C12": "Rules: the entities and links CreateStory makes are exactly the ones of the layout; every move to the first fact goes remark, fact, story, first fact, first remark along the links that were written.",
	"C13": "Rules: AddRemarkToFact makes one remark with the object of the given remark and the given property, linked to the fact of that remark, and makes no other links.",
	"C14": "Rules: AddFactToStory makes a remark and a fact of the story of the given remark, linked from the last fact of that story (the loop along next facts ends at the one that has none); moves and tests read the links that were written.",
	"C15": "Rules: CreateChildStory makes a story below the story of the given remark, linked from the last child (the loop along next stories ends at the one that has none); moves and tests read the links that were written.",
	"C16": "Rules: GetStory starts at the first remark of the first fact of the story, appends object, space, property, space once per turn, moves along the next-remark link and stops exactly when there is none.",
	"C17": "Rule: an element of a list of links is used only under the condition that the list has the length that makes it unambiguous; a test for a link holds exactly when that list is not empty, and errors otherwise.",
	"C18": "Rule: at each link from data that existed to a new entity, no later write completes that entity or one it leads to (in the order of the calls on every path). Which links lead anywhere is taken from the reads of all operations.",
	"C19": "Rules: the phrase is split on single spaces and each part is provided as a word in turn; an empty part has no first character and its length check reports an error; no other text is rejected on a complete storage.",
	"C20": "Rules: two bits are made exactly when none is stored, exactly two are read, and the larger of the two nodes is the one bit, whatever the order; Fetch compares with both and otherwise reports an error.",
	"C24": "Rule: under the condition that the error of a storage call is not nil, no later call that changes the storage is reachable (for a call in a loop, no such call in a later turn either). One obligation per storage call.",
	"C25": "Rules: no loop has a turn that leaves every carried value, the memory and the links as they were; every loop ends with a list, a count or a number that shrinks, or walks along one kind of link (which runs from older to newer nodes or back, C21).",
	"C21": "Rules: each Connect, SetReference, ReadTargets, ReadSources and GetReference joins or reads the pair of node roles that the layout table names, and a character, word or phrase is read along the chain from its last part back to its first one.",
}

// floor lists, for each property, the rules that must have instances: a rule
// that finds nothing to look at decides nothing.
var floor = map[string][]string{
	"C01": {"all-parts", "fetch", "first-part", "next-part", "no-more-parts", "link-made", "link-expected", "object-property", "pair", "pair-read", "walk"},
	"C02": {"first-part", "next-part", "link-made", "link-expected", "pair"},
	"C03": {"chain", "read-by", "node", "fetch", "bit-chain"},
	"C04": {"failure"},
	"C05": {"no-panic", "result", "complete"},
	"C06": {"reference"},
	"C07": {"read-only"},
	"C08": {"class", "class-nodes", "fixed-classes", "register", "test"},
	"C09": {"memory", "bits-made", "bits-read", "same-bits", "same-classes"},
	"C10": {"ambient"},
	"C11": {"identifier", "kind", "found", "object-property"},
	"C12": {"creates", "first-remark", "moves", "link-made", "link-expected", "result"},
	"C13": {"creates", "link-made", "link-expected", "object-property", "result"},
	"C14": {"creates", "first-remark", "has", "last", "moves", "link-made", "link-expected", "result"},
	"C15": {"creates", "first-child", "has", "last", "moves", "link-made", "link-expected", "result"},
	"C16": {"walk", "moves", "has"},
	"C17": {"single", "has", "test", "link"},
	"C18": {"complete-before-reach"},
	"C19": {"all-parts", "empty-word", "stored"},
	"C20": {"two-bits", "bit", "bit-known", "bit-value", "bits-made"},
	"C24": {"stops"},
	"C25": {"ends"},
	"C21": {"link", "read", "links", "walk"},
}
