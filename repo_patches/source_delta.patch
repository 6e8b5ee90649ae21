From 61f9d5cbdcec5d3434b2cd215b749303908dce2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:20 +0000
Subject: [PATCH 01/16] fix: look up the target word of a character at its word
 node

---
 internal/concrete/character/entity.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/concrete/character/entity.go b/internal/concrete/character/entity.go
index 3f415c8..5c08317 100644
--- a/internal/concrete/character/entity.go
+++ b/internal/concrete/character/entity.go
@@ -102,7 +102,7 @@ func (e Entity) MarkWord(sourceIdentifier uint) error {
 
 func (e Entity) HasTargetWord() (bool, error) {
 
-	targets, err := e.storage.ReadTargets(e.character)
+	targets, err := e.storage.ReadTargets(e.word)
 	if err != nil {
 		return false, err
 	}
@@ -113,7 +113,7 @@ func (e Entity) HasTargetWord() (bool, error) {
 	case 1:
 		return true, nil
 	default:
-		return false, fmt.Errorf("character has wrong number of target words: %d at %d", len(targets), e.character)
+		return false, fmt.Errorf("character has wrong number of target words: %d at %d", len(targets), e.word)
 	}
 }
 
-- 
2.43.0


From fa10c0f12d52d455e63dcc0cd9577c299215961d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:21 +0000
Subject: [PATCH 02/16] fix: report errors of providing the next element
 instead of going on with nil

---
 internal/concrete/character/repository.go | 3 +++
 internal/concrete/phrase/repository.go    | 3 +++
 internal/concrete/word/repository.go      | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/internal/concrete/character/repository.go b/internal/concrete/character/repository.go
index ec0a55a..6b9ec43 100644
--- a/internal/concrete/character/repository.go
+++ b/internal/concrete/character/repository.go
@@ -42,6 +42,9 @@ func (r *Repository) Provide(integer rune) (abstractCharacter.Aggregate, error)
 	for _, bitValue := range path[1:] {
 
 		characterElement, err = characterElement.ProvideNextElement(bitValue)
+		if err != nil {
+			return nil, err
+		}
 	}
 
 	return Aggregate{
diff --git a/internal/concrete/phrase/repository.go b/internal/concrete/phrase/repository.go
index 51584c9..33a9a2a 100644
--- a/internal/concrete/phrase/repository.go
+++ b/internal/concrete/phrase/repository.go
@@ -42,6 +42,9 @@ func (r *Repository) Provide(words string) (abstractPhrase.Aggregate, error) {
 	for _, wordValue := range path[1:] {
 
 		phraseElement, err = phraseElement.ProvideNextElement(wordValue)
+		if err != nil {
+			return nil, err
+		}
 	}
 
 	return Aggregate{
diff --git a/internal/concrete/word/repository.go b/internal/concrete/word/repository.go
index eb21950..316602f 100644
--- a/internal/concrete/word/repository.go
+++ b/internal/concrete/word/repository.go
@@ -46,6 +46,9 @@ func (r *Repository) Provide(word string) (abstractWord.Aggregate, error) {
 	for _, characterValue := range path[1:] {
 
 		wordElement, err = wordElement.ProvideNextElement(characterValue)
+		if err != nil {
+			return nil, err
+		}
 	}
 
 	return Aggregate{
-- 
2.43.0


From 38ab3b2f835a08c49b76ff0487cb137837dcc0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:22 +0000
Subject: [PATCH 03/16] fix: report errors of getting the previous element

---
 internal/concrete/character/aggragate.go | 3 +++
 internal/concrete/phrase/aggregate.go    | 3 +++
 internal/concrete/word/aggregate.go      | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/internal/concrete/character/aggragate.go b/internal/concrete/character/aggragate.go
index 0a3910e..c9f24ad 100644
--- a/internal/concrete/character/aggragate.go
+++ b/internal/concrete/character/aggragate.go
@@ -54,6 +54,9 @@ func (a Aggregate) Extract() (rune, error) {
 		}
 
 		characterElement, err = characterElement.GetPreviousElement()
+		if err != nil {
+			return 0, err
+		}
 
 		bitValue, err := characterElement.ExtractBitValue()
 		if err != nil {
diff --git a/internal/concrete/phrase/aggregate.go b/internal/concrete/phrase/aggregate.go
index 2c6519e..502e979 100644
--- a/internal/concrete/phrase/aggregate.go
+++ b/internal/concrete/phrase/aggregate.go
@@ -52,6 +52,9 @@ func (a Aggregate) Extract() (string, error) {
 		}
 
 		phraseElement, err = phraseElement.GetPreviousElement()
+		if err != nil {
+			return "", err
+		}
 
 		wordValue, err := phraseElement.ExtractWordValue()
 		if err != nil {
diff --git a/internal/concrete/word/aggregate.go b/internal/concrete/word/aggregate.go
index a10c393..c46929d 100644
--- a/internal/concrete/word/aggregate.go
+++ b/internal/concrete/word/aggregate.go
@@ -34,6 +34,9 @@ func (a Aggregate) Extract() (string, error) {
 		}
 
 		wordElement, err = wordElement.GetPreviousElement()
+		if err != nil {
+			return "", err
+		}
 
 		characterValue, err := wordElement.ExtractCharacterValue()
 		if err != nil {
-- 
2.43.0


From 402246dd4e5dce1943ea9faa56f0cb7cc4d106d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:22 +0000
Subject: [PATCH 04/16] fix: report errors of providing the first character
 element

---
 internal/concrete/character/elements.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/concrete/character/elements.go b/internal/concrete/character/elements.go
index d88350a..c346197 100644
--- a/internal/concrete/character/elements.go
+++ b/internal/concrete/character/elements.go
@@ -43,6 +43,9 @@ func (e *Elements) ProvideFirstElement(bitValue bool) (abstractCharacter.Element
 	}
 
 	character, err := e.characterFactory.ProvideHeadEntity(class, firstBit)
+	if err != nil {
+		return nil, err
+	}
 
 	return Element{
 		character:        character,
-- 
2.43.0


From 3ace0d8b355406153b2f88294761668d75f59d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:23 +0000
Subject: [PATCH 05/16] fix: report errors of reading the details of a property

---
 internal/concrete/detail/factory.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/concrete/detail/factory.go b/internal/concrete/detail/factory.go
index 7412678..d817690 100644
--- a/internal/concrete/detail/factory.go
+++ b/internal/concrete/detail/factory.go
@@ -31,6 +31,9 @@ func (f *Factory) ProvideEntity(
 	}
 
 	propertySourceDetails, err := propertyPhrase.GetSourceDetails()
+	if err != nil {
+		return nil, err
+	}
 
 	commonDetailIdentifiers := make([]uint, 0, 1)
 
-- 
2.43.0


From 752b068b2a5dd1fa0595753812e37cb24a1b13ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:23 +0000
Subject: [PATCH 06/16] fix: report errors of reading the next remark

---
 internal/concrete/remark/aggregate.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/concrete/remark/aggregate.go b/internal/concrete/remark/aggregate.go
index 02cc0cc..a60b2cd 100644
--- a/internal/concrete/remark/aggregate.go
+++ b/internal/concrete/remark/aggregate.go
@@ -35,6 +35,9 @@ func (a Aggregate) GetNextRemark() (abstractRemark.Aggregate, error) {
 	}
 
 	nextRemark, err := a.remarkStorage.ReadEntityByPosition(nextRemarkIdentifier)
+	if err != nil {
+		return nil, err
+	}
 
 	class, err := a.classRepository.ProvideEntity()
 	if err != nil {
-- 
2.43.0


From c82722c975c3df3f06c7572016ac579d0dd7bff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:24 +0000
Subject: [PATCH 07/16] fix: report errors of reading the story of a fact

---
 internal/concrete/fact/aggregate.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/internal/concrete/fact/aggregate.go b/internal/concrete/fact/aggregate.go
index 798781f..b951c43 100644
--- a/internal/concrete/fact/aggregate.go
+++ b/internal/concrete/fact/aggregate.go
@@ -59,6 +59,9 @@ func (a Aggregate) GetFirstRemark() (uint, error) {
 func (a Aggregate) HasNextStory() (bool, error) {
 
 	storyIdentifier, err := a.fact.GetTargetStory()
+	if err != nil {
+		return false, err
+	}
 
 	story, err := a.storyRepository.FetchByFact(storyIdentifier)
 	if err != nil {
@@ -71,6 +74,9 @@ func (a Aggregate) HasNextStory() (bool, error) {
 func (a Aggregate) ToNextStory() (abstractFact.Aggregate, error) {
 
 	storyIdentifier, err := a.fact.GetTargetStory()
+	if err != nil {
+		return nil, err
+	}
 
 	story, err := a.storyRepository.FetchByFact(storyIdentifier)
 	if err != nil {
@@ -106,6 +112,9 @@ func (a Aggregate) ToNextStory() (abstractFact.Aggregate, error) {
 func (a Aggregate) HasParentStory() (bool, error) {
 
 	storyIdentifier, err := a.fact.GetTargetStory()
+	if err != nil {
+		return false, err
+	}
 
 	story, err := a.storyRepository.FetchByFact(storyIdentifier)
 	if err != nil {
@@ -118,6 +127,9 @@ func (a Aggregate) HasParentStory() (bool, error) {
 func (a Aggregate) ToParentStory() (abstractFact.Aggregate, error) {
 
 	storyIdentifier, err := a.fact.GetTargetStory()
+	if err != nil {
+		return nil, err
+	}
 
 	story, err := a.storyRepository.FetchByFact(storyIdentifier)
 	if err != nil {
@@ -153,6 +165,9 @@ func (a Aggregate) ToParentStory() (abstractFact.Aggregate, error) {
 func (a Aggregate) ToFirstFact() (abstractFact.Aggregate, error) {
 
 	storyIdentifier, err := a.fact.GetTargetStory()
+	if err != nil {
+		return nil, err
+	}
 
 	story, err := a.storyRepository.FetchByFact(storyIdentifier)
 	if err != nil {
-- 
2.43.0


From 48925344e91e0866d5a7cabf4410ead076a99208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:24 +0000
Subject: [PATCH 08/16] fix: keep the fact storage in facts reached from
 another fact

---
 internal/concrete/fact/aggregate.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/concrete/fact/aggregate.go b/internal/concrete/fact/aggregate.go
index b951c43..bae9977 100644
--- a/internal/concrete/fact/aggregate.go
+++ b/internal/concrete/fact/aggregate.go
@@ -47,6 +47,7 @@ func (a Aggregate) ToNextFact() (abstractFact.Aggregate, error) {
 
 	return Aggregate{
 		fact:            nextFact,
+		factStorage:     a.factStorage,
 		storyRepository: a.storyRepository,
 	}, nil
 }
@@ -105,6 +106,7 @@ func (a Aggregate) ToNextStory() (abstractFact.Aggregate, error) {
 
 	return Aggregate{
 		fact:            nextFact,
+		factStorage:     a.factStorage,
 		storyRepository: a.storyRepository,
 	}, nil
 }
@@ -158,6 +160,7 @@ func (a Aggregate) ToParentStory() (abstractFact.Aggregate, error) {
 
 	return Aggregate{
 		fact:            parentFact,
+		factStorage:     a.factStorage,
 		storyRepository: a.storyRepository,
 	}, nil
 }
@@ -186,6 +189,7 @@ func (a Aggregate) ToFirstFact() (abstractFact.Aggregate, error) {
 
 	return Aggregate{
 		fact:            firstFact,
+		factStorage:     a.factStorage,
 		storyRepository: a.storyRepository,
 	}, nil
 }
-- 
2.43.0


From a4e760f44838da84f3df704a88023d4a4e9ff27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:25 +0000
Subject: [PATCH 09/16] fix: give characters read by class their storage

---
 internal/concrete/character/storage.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/concrete/character/storage.go b/internal/concrete/character/storage.go
index 251f279..e64f582 100644
--- a/internal/concrete/character/storage.go
+++ b/internal/concrete/character/storage.go
@@ -80,6 +80,7 @@ func (s *Storage) ReadEntityByClass(class uint) (abstractCharacter.Entity, error
 		bit:       bit,
 		character: character,
 		word:      word,
+		storage:   s.storage,
 	}, nil
 }
 
-- 
2.43.0


From bdf180c531d2ec17741f671eff37706dd1d39b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:10 +0000
Subject: [PATCH 10/16] fix: start fact and story navigation at the fact of a
 remark

---
 internal/concrete/remark/aggregate.go | 28 +++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/internal/concrete/remark/aggregate.go b/internal/concrete/remark/aggregate.go
index a60b2cd..371d56f 100644
--- a/internal/concrete/remark/aggregate.go
+++ b/internal/concrete/remark/aggregate.go
@@ -64,7 +64,12 @@ func (a Aggregate) GetNextRemark() (abstractRemark.Aggregate, error) {
 
 func (a Aggregate) HasNextFact() (bool, error) {
 
-	fact, err := a.factRepository.FetchByRemark(a.remark.GetFact())
+	factIdentifier, err := a.remark.GetTargetFact()
+	if err != nil {
+		return false, err
+	}
+
+	fact, err := a.factRepository.FetchByRemark(factIdentifier)
 	if err != nil {
 		return false, err
 	}
@@ -74,7 +79,12 @@ func (a Aggregate) HasNextFact() (bool, error) {
 
 func (a Aggregate) GetNextFact() (abstractRemark.Aggregate, error) {
 
-	fact, err := a.factRepository.FetchByRemark(a.remark.GetFact())
+	factIdentifier, err := a.remark.GetTargetFact()
+	if err != nil {
+		return nil, err
+	}
+
+	fact, err := a.factRepository.FetchByRemark(factIdentifier)
 	if err != nil {
 		return nil, err
 	}
@@ -142,7 +152,12 @@ func (a Aggregate) GetFirstFact() (abstractRemark.Aggregate, error) {
 
 func (a Aggregate) HasNextStory() (bool, error) {
 
-	fact, err := a.factRepository.FetchByRemark(a.remark.GetFact())
+	factIdentifier, err := a.remark.GetTargetFact()
+	if err != nil {
+		return false, err
+	}
+
+	fact, err := a.factRepository.FetchByRemark(factIdentifier)
 	if err != nil {
 		return false, err
 	}
@@ -152,7 +167,12 @@ func (a Aggregate) HasNextStory() (bool, error) {
 
 func (a Aggregate) GetNextStory() (abstractRemark.Aggregate, error) {
 
-	fact, err := a.factRepository.FetchByRemark(a.remark.GetFact())
+	factIdentifier, err := a.remark.GetTargetFact()
+	if err != nil {
+		return nil, err
+	}
+
+	fact, err := a.factRepository.FetchByRemark(factIdentifier)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From ed14752637fe75098d4b9f41b7b2fa649bf6beba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:11 +0000
Subject: [PATCH 11/16] fix: append a new fact to the story of the remark it is
 added to

---
 internal/concrete/fact/repository.go  | 31 +++++++++++++++++++++++++--
 internal/concrete/remark/aggregate.go | 12 ++++++++++-
 2 files changed, 40 insertions(+), 3 deletions(-)

diff --git a/internal/concrete/fact/repository.go b/internal/concrete/fact/repository.go
index 5304dc9..b3a757f 100644
--- a/internal/concrete/fact/repository.go
+++ b/internal/concrete/fact/repository.go
@@ -87,7 +87,12 @@ func (r *Repository) CreateNextFact(remarkIdentifier uint) (abstractFact.Aggrega
 		return nil, err
 	}
 
-	story, err := r.storyRepository.FetchByFact(fact.GetStory())
+	storyIdentifier, err := fact.GetTargetStory()
+	if err != nil {
+		return nil, err
+	}
+
+	story, err := r.storyRepository.FetchByFact(storyIdentifier)
 	if err != nil {
 		return nil, err
 	}
@@ -112,7 +117,29 @@ func (r *Repository) CreateNextFact(remarkIdentifier uint) (abstractFact.Aggrega
 		return nil, err
 	}
 
-	err = fact.PointToPosition(nextFact.GetPosition())
+	lastFact := fact
+	for {
+		hasTargetFact, err := lastFact.HasTargetFact()
+		if err != nil {
+			return nil, err
+		}
+
+		if !hasTargetFact {
+			break
+		}
+
+		targetFact, err := lastFact.GetTargetFact()
+		if err != nil {
+			return nil, err
+		}
+
+		lastFact, err = r.factStorage.ReadEntityByPosition(targetFact)
+		if err != nil {
+			return nil, err
+		}
+	}
+
+	err = lastFact.PointToPosition(nextFact.GetPosition())
 	if err != nil {
 		return nil, err
 	}
diff --git a/internal/concrete/remark/aggregate.go b/internal/concrete/remark/aggregate.go
index 371d56f..08bb979 100644
--- a/internal/concrete/remark/aggregate.go
+++ b/internal/concrete/remark/aggregate.go
@@ -317,7 +317,12 @@ func (a Aggregate) AddFactToStory(object string, property string) (abstractRemar
 
 	// fact
 
-	nextFact, err := a.factRepository.CreateNextFact(a.remark.GetFact())
+	factIdentifier, err := a.remark.GetTargetFact()
+	if err != nil {
+		return nil, err
+	}
+
+	nextFact, err := a.factRepository.CreateNextFact(factIdentifier)
 	if err != nil {
 		return nil, err
 	}
@@ -327,6 +332,11 @@ func (a Aggregate) AddFactToStory(object string, property string) (abstractRemar
 		return nil, err
 	}
 
+	err = nextFact.PointToRemark(remark.GetFact())
+	if err != nil {
+		return nil, err
+	}
+
 	return Aggregate{
 		remark:           remark,
 		remarkStorage:    a.remarkStorage,
-- 
2.43.0


From f2729f624a081b291c175e5cd06c99372d977a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:11 +0000
Subject: [PATCH 12/16] fix: attach a child story to the story of its remark
 and chain it to its siblings

---
 internal/abstract/story/entity.go     |  1 +
 internal/concrete/fact/repository.go  | 18 +++++++++---------
 internal/concrete/remark/aggregate.go |  7 ++++++-
 internal/concrete/story/entity.go     |  5 +++++
 4 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/internal/abstract/story/entity.go b/internal/abstract/story/entity.go
index 6458a73..8479585 100644
--- a/internal/abstract/story/entity.go
+++ b/internal/abstract/story/entity.go
@@ -19,5 +19,6 @@ type Entity interface {
 	GetTargetTree() (uint, error)
 
 	HasSourceTree() (bool, error)
+	GetSourceTrees() ([]uint, error)
 	GetSourceTree() (uint, error)
 }
diff --git a/internal/concrete/fact/repository.go b/internal/concrete/fact/repository.go
index b3a757f..11d5153 100644
--- a/internal/concrete/fact/repository.go
+++ b/internal/concrete/fact/repository.go
@@ -158,12 +158,17 @@ func (r *Repository) CreateChildStoryFact(remarkIdentifier uint) (abstractFact.A
 		return nil, err
 	}
 
-	story, err := r.storyRepository.FetchByFact(fact.GetStory())
+	storyIdentifier, err := fact.GetTargetStory()
+	if err != nil {
+		return nil, err
+	}
+
+	story, err := r.storyRepository.FetchByFact(storyIdentifier)
 	if err != nil {
 		return nil, err
 	}
 
-	hasTargetTree, err := story.HasTargetTree()
+	siblingTrees, err := story.GetSourceTrees()
 	if err != nil {
 		return nil, err
 	}
@@ -178,9 +183,9 @@ func (r *Repository) CreateChildStoryFact(remarkIdentifier uint) (abstractFact.A
 		return nil, err
 	}
 
-	if hasTargetTree {
+	if len(siblingTrees) != 0 {
 
-		siblingStory, err := r.storyRepository.FetchByTree(story.GetTree())
+		siblingStory, err := r.storyRepository.FetchByTree(siblingTrees[0])
 		if err != nil {
 			return nil, err
 		}
@@ -211,11 +216,6 @@ func (r *Repository) CreateChildStoryFact(remarkIdentifier uint) (abstractFact.A
 			return nil, err
 		}
 
-		err = story.PointToTree(childStory.GetTree())
-		if err != nil {
-			return nil, err
-		}
-
 	}
 
 	//
diff --git a/internal/concrete/remark/aggregate.go b/internal/concrete/remark/aggregate.go
index 08bb979..a4fb3e8 100644
--- a/internal/concrete/remark/aggregate.go
+++ b/internal/concrete/remark/aggregate.go
@@ -377,7 +377,12 @@ func (a Aggregate) CreateChildStory(object string, property string) (abstractRem
 
 	// fact
 
-	firstFact, err := a.factRepository.CreateChildStoryFact(a.remark.GetFact())
+	factIdentifier, err := a.remark.GetTargetFact()
+	if err != nil {
+		return nil, err
+	}
+
+	firstFact, err := a.factRepository.CreateChildStoryFact(factIdentifier)
 	if err != nil {
 		return nil, err
 	}
diff --git a/internal/concrete/story/entity.go b/internal/concrete/story/entity.go
index 0eb4685..deb95ba 100644
--- a/internal/concrete/story/entity.go
+++ b/internal/concrete/story/entity.go
@@ -123,6 +123,11 @@ func (e Entity) HasSourceTree() (bool, error) {
 	return len(sources) != 0, nil
 }
 
+func (e Entity) GetSourceTrees() ([]uint, error) {
+
+	return e.storage.ReadSources(e.tree)
+}
+
 func (e Entity) GetSourceTree() (uint, error) {
 
 	sources, err := e.storage.ReadSources(e.tree)
-- 
2.43.0


From 65a026a1a84dcd0c7d48525f6fed6eedb5995da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:12 +0000
Subject: [PATCH 13/16] fix: look for a parent story where it is linked

---
 internal/concrete/fact/aggregate.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/concrete/fact/aggregate.go b/internal/concrete/fact/aggregate.go
index bae9977..c4f2a7e 100644
--- a/internal/concrete/fact/aggregate.go
+++ b/internal/concrete/fact/aggregate.go
@@ -123,7 +123,7 @@ func (a Aggregate) HasParentStory() (bool, error) {
 		return false, err
 	}
 
-	return story.HasSourceTree()
+	return story.HasTargetTree()
 }
 
 func (a Aggregate) ToParentStory() (abstractFact.Aggregate, error) {
-- 
2.43.0


From 3dd472f0277b7f65dd90e1294f8258b4690419d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:12 +0000
Subject: [PATCH 14/16] fix: complete a new detail before phrases point to it

---
 internal/concrete/detail/storage.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/internal/concrete/detail/storage.go b/internal/concrete/detail/storage.go
index 9928fa8..4153363 100644
--- a/internal/concrete/detail/storage.go
+++ b/internal/concrete/detail/storage.go
@@ -35,27 +35,27 @@ func (s *Storage) CreateEntity(
 		return nil, err
 	}
 
-	err = objectPhrase.AddTargetDetail(phrase)
+	remark, err := s.storage.Create()
 	if err != nil {
 		return nil, err
 	}
 
-	err = propertyPhrase.AddSourceDetail(phrase)
+	err = s.storage.SetReference(class, phrase)
 	if err != nil {
 		return nil, err
 	}
 
-	remark, err := s.storage.Create()
+	err = s.storage.SetReference(phrase, remark)
 	if err != nil {
 		return nil, err
 	}
 
-	err = s.storage.SetReference(class, phrase)
+	err = objectPhrase.AddTargetDetail(phrase)
 	if err != nil {
 		return nil, err
 	}
 
-	err = s.storage.SetReference(phrase, remark)
+	err = propertyPhrase.AddSourceDetail(phrase)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 705a680c01e4d8912c5b5c103ceda1b4cdbf6c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:13 +0000
Subject: [PATCH 15/16] fix: reject identifiers of other nodes when getting a
 remark

---
 internal/concrete/remark/repository.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/internal/concrete/remark/repository.go b/internal/concrete/remark/repository.go
index 60cc3d3..b266115 100644
--- a/internal/concrete/remark/repository.go
+++ b/internal/concrete/remark/repository.go
@@ -1,6 +1,7 @@
 package remark
 
 import (
+	"fmt"
 	"github.com/mem-memov/semnet/internal/abstract"
 	abstractClass "github.com/mem-memov/semnet/internal/abstract/class"
 	abstractDetail "github.com/mem-memov/semnet/internal/abstract/detail"
@@ -94,6 +95,20 @@ func (r *Repository) GetRemark(remarkIdentifier uint) (abstractRemark.Aggregate,
 		return nil, err
 	}
 
+	class, err := r.classRepository.ProvideEntity()
+	if err != nil {
+		return nil, err
+	}
+
+	isRemark, err := class.IsRemark(remarkIdentifier)
+	if err != nil {
+		return nil, err
+	}
+
+	if !isRemark {
+		return nil, fmt.Errorf("remark has wrong class: %d", remarkIdentifier)
+	}
+
 	return Aggregate{
 		remark:           remark,
 		remarkStorage:    r.remarkStorage,
-- 
2.43.0


From 3ce0d077bc9299ef81eb39970fbdf1d57bd5c412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:06 +0000
Subject: [PATCH 16/16] fix: link a new fact or child story only when it is
 complete

---
 internal/abstract/fact/remark.go      |  6 +++
 internal/abstract/fact/repository.go  |  4 +-
 internal/concrete/fact/repository.go  | 78 ++++++++++++++++-----------
 internal/concrete/remark/aggregate.go | 24 +--------
 4 files changed, 57 insertions(+), 55 deletions(-)
 create mode 100644 internal/abstract/fact/remark.go

diff --git a/internal/abstract/fact/remark.go b/internal/abstract/fact/remark.go
new file mode 100644
index 0000000..7648e9d
--- /dev/null
+++ b/internal/abstract/fact/remark.go
@@ -0,0 +1,6 @@
+package fact
+
+type Remark interface {
+	GetFact() uint
+	PointToFact(fact uint) error
+}
diff --git a/internal/abstract/fact/repository.go b/internal/abstract/fact/repository.go
index cf82db6..3de4c6f 100644
--- a/internal/abstract/fact/repository.go
+++ b/internal/abstract/fact/repository.go
@@ -3,6 +3,6 @@ package fact
 type Repository interface {
 	CreateFirstStoryFact() (Aggregate, error)
 	FetchByRemark(remarkIdentifier uint) (Aggregate, error)
-	CreateNextFact(remarkIdentifier uint) (Aggregate, error)
-	CreateChildStoryFact(remarkIdentifier uint) (Aggregate, error)
+	CreateNextFact(remarkIdentifier uint, firstRemark Remark) (Aggregate, error)
+	CreateChildStoryFact(remarkIdentifier uint, firstRemark Remark) (Aggregate, error)
 }
diff --git a/internal/concrete/fact/repository.go b/internal/concrete/fact/repository.go
index 11d5153..618240d 100644
--- a/internal/concrete/fact/repository.go
+++ b/internal/concrete/fact/repository.go
@@ -80,7 +80,7 @@ func (r *Repository) FetchByRemark(remarkIdentifier uint) (abstractFact.Aggregat
 	}, nil
 }
 
-func (r *Repository) CreateNextFact(remarkIdentifier uint) (abstractFact.Aggregate, error) {
+func (r *Repository) CreateNextFact(remarkIdentifier uint, firstRemark abstractFact.Remark) (abstractFact.Aggregate, error) {
 
 	fact, err := r.factStorage.ReadEntityByRemark(remarkIdentifier)
 	if err != nil {
@@ -117,6 +117,16 @@ func (r *Repository) CreateNextFact(remarkIdentifier uint) (abstractFact.Aggrega
 		return nil, err
 	}
 
+	err = firstRemark.PointToFact(nextFact.GetRemark())
+	if err != nil {
+		return nil, err
+	}
+
+	err = nextFact.PointToRemark(firstRemark.GetFact())
+	if err != nil {
+		return nil, err
+	}
+
 	lastFact := fact
 	for {
 		hasTargetFact, err := lastFact.HasTargetFact()
@@ -151,7 +161,7 @@ func (r *Repository) CreateNextFact(remarkIdentifier uint) (abstractFact.Aggrega
 	}, nil
 }
 
-func (r *Repository) CreateChildStoryFact(remarkIdentifier uint) (abstractFact.Aggregate, error) {
+func (r *Repository) CreateChildStoryFact(remarkIdentifier uint, firstRemark abstractFact.Remark) (abstractFact.Aggregate, error) {
 
 	fact, err := r.factStorage.ReadEntityByRemark(remarkIdentifier)
 	if err != nil {
@@ -178,6 +188,41 @@ func (r *Repository) CreateChildStoryFact(remarkIdentifier uint) (abstractFact.A
 		return nil, err
 	}
 
+	class, err := r.classRepository.ProvideEntity()
+	if err != nil {
+		return nil, err
+	}
+
+	classIdentifier, err := class.CreateFact()
+	if err != nil {
+		return nil, err
+	}
+
+	firstFact, err := r.factStorage.CreateEntity(classIdentifier)
+	if err != nil {
+		return nil, err
+	}
+
+	err = firstFact.PointToStory(childStory.GetFact())
+	if err != nil {
+		return nil, err
+	}
+
+	err = childStory.PointToFact(firstFact.GetStory())
+	if err != nil {
+		return nil, err
+	}
+
+	err = firstRemark.PointToFact(firstFact.GetRemark())
+	if err != nil {
+		return nil, err
+	}
+
+	err = firstFact.PointToRemark(firstRemark.GetFact())
+	if err != nil {
+		return nil, err
+	}
+
 	err = childStory.PointToTree(story.GetTree())
 	if err != nil {
 		return nil, err
@@ -218,35 +263,6 @@ func (r *Repository) CreateChildStoryFact(remarkIdentifier uint) (abstractFact.A
 
 	}
 
-	//
-
-	class, err := r.classRepository.ProvideEntity()
-	if err != nil {
-		return nil, err
-	}
-
-	classIdentifier, err := class.CreateFact()
-	if err != nil {
-		return nil, err
-	}
-
-	firstFact, err := r.factStorage.CreateEntity(classIdentifier)
-	if err != nil {
-		return nil, err
-	}
-
-	err = firstFact.PointToStory(childStory.GetFact())
-	if err != nil {
-		return nil, err
-	}
-
-	err = childStory.PointToFact(firstFact.GetStory())
-	if err != nil {
-		return nil, err
-	}
-
-	//
-
 	return Aggregate{
 		fact:            firstFact,
 		factStorage:     r.factStorage,
diff --git a/internal/concrete/remark/aggregate.go b/internal/concrete/remark/aggregate.go
index a4fb3e8..48f77cd 100644
--- a/internal/concrete/remark/aggregate.go
+++ b/internal/concrete/remark/aggregate.go
@@ -322,17 +322,7 @@ func (a Aggregate) AddFactToStory(object string, property string) (abstractRemar
 		return nil, err
 	}
 
-	nextFact, err := a.factRepository.CreateNextFact(factIdentifier)
-	if err != nil {
-		return nil, err
-	}
-
-	err = remark.PointToFact(nextFact.GetRemark())
-	if err != nil {
-		return nil, err
-	}
-
-	err = nextFact.PointToRemark(remark.GetFact())
+	_, err = a.factRepository.CreateNextFact(factIdentifier, remark)
 	if err != nil {
 		return nil, err
 	}
@@ -382,17 +372,7 @@ func (a Aggregate) CreateChildStory(object string, property string) (abstractRem
 		return nil, err
 	}
 
-	firstFact, err := a.factRepository.CreateChildStoryFact(factIdentifier)
-	if err != nil {
-		return nil, err
-	}
-
-	err = remark.PointToFact(firstFact.GetRemark())
-	if err != nil {
-		return nil, err
-	}
-
-	err = firstFact.PointToRemark(remark.GetFact())
+	_, err = a.factRepository.CreateChildStoryFact(factIdentifier, remark)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0

