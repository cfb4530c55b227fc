From fce81de3697a8d102f25308c536505da4d79c008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:46 +0000
Subject: [PATCH 01/44] fix: unmute the wake notification together with all the
 others

---
 life/events.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/life/events.go b/life/events.go
index 5f82707..13364cb 100644
--- a/life/events.go
+++ b/life/events.go
@@ -77,6 +77,7 @@ func (c *Controls) UnmuteAll() {
 	c.Begin.Unmute()
 	c.Descend.Unmute()
 	c.End.Unmute()
+	c.Wake.Unmute()
 	c.Sleep.Unmute()
 }
 
-- 
2.43.0


From dfd3bfaded84942ae11f96cf44c929a3d05e99a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:00 +0000
Subject: [PATCH 02/44] fix: measure the sub path offset in runes, not bytes

---
 pref/defaults.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pref/defaults.go b/pref/defaults.go
index 2bb960c..4fada1a 100644
--- a/pref/defaults.go
+++ b/pref/defaults.go
@@ -65,7 +65,7 @@ func tail(input string, offset int) string {
 // relationship between the parent and child paths provided then a panic
 // may occur.
 func difference(parent, child string) string {
-	return tail(child, len(parent))
+	return tail(child, len([]rune(parent)))
 }
 
 // RootItemSubPathHook
-- 
2.43.0


From c5c0937056355903703d70b5da8dac8c2c69817e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:13 +0000
Subject: [PATCH 03/44] fix: sampling must not swallow the directory read error

---
 internal/feat/sampling/controller.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/feat/sampling/controller.go b/internal/feat/sampling/controller.go
index 95fc165..b3bf3ba 100644
--- a/internal/feat/sampling/controller.go
+++ b/internal/feat/sampling/controller.go
@@ -24,7 +24,7 @@ func (p *controller) Next(_ core.Servant, _ enclave.Inspection) (bool, error) {
 	return true, nil
 }
 
-func (p *controller) sample(result []fs.DirEntry, _ error,
+func (p *controller) sample(result []fs.DirEntry, err error,
 	_ fs.ReadDirFS, _ string,
 ) ([]fs.DirEntry, error) {
 	files, directories := nef.Separate(result)
@@ -33,7 +33,7 @@ func (p *controller) sample(result []fs.DirEntry, _ error,
 		files:       files,
 		directories: directories,
 		o:           p.o,
-	}), nil
+	}), err
 }
 
 type (
-- 
2.43.0


From 7bfdd7ef4cdfc36fa9a6de9706c32e349d392dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:27 +0000
Subject: [PATCH 04/44] fix: report an unsupported filter type instead of
 building a nil filter

---
 internal/filtering/builders.go | 3 +++
 internal/filtering/child.go    | 4 ++++
 internal/filtering/sample.go   | 7 +++++++
 3 files changed, 14 insertions(+)

diff --git a/internal/filtering/builders.go b/internal/filtering/builders.go
index 3be1f4a..e937a55 100644
--- a/internal/filtering/builders.go
+++ b/internal/filtering/builders.go
@@ -32,6 +32,9 @@ func buildNativeNodeFilter(definition *core.FilterDef) (core.TraverseFilter, err
 
 	case enums.FilterTypeUndefined:
 		return nil, locale.ErrFilterMissingType
+
+	default:
+		return nil, locale.ErrFilterUndefined
 	}
 
 	if err != nil {
diff --git a/internal/filtering/child.go b/internal/filtering/child.go
index b81dcea..1351182 100644
--- a/internal/filtering/child.go
+++ b/internal/filtering/child.go
@@ -41,6 +41,10 @@ func NewChild(def *core.ChildFilterDef) (core.ChildTraverseFilter, error) {
 		return nil, locale.ErrFilterUndefined
 
 	case enums.FilterTypePoly:
+		return nil, locale.ErrPolyFilterIsInvalid
+
+	default:
+		return nil, locale.ErrFilterUndefined
 	}
 
 	if filter != nil {
diff --git a/internal/filtering/sample.go b/internal/filtering/sample.go
index 2769453..5a8dd80 100644
--- a/internal/filtering/sample.go
+++ b/internal/filtering/sample.go
@@ -51,6 +51,8 @@ func NewSample(def *core.SampleFilterDef,
 
 	switch def.Type {
 	case enums.FilterTypeGlobEx:
+		return nil, locale.ErrFilterChildGlobExNotSupported
+
 	case enums.FilterTypeRegex:
 		filter = &SampleRegex{
 			Sample: base,
@@ -66,8 +68,13 @@ func NewSample(def *core.SampleFilterDef,
 		}
 		filter = def.Custom
 	case enums.FilterTypePoly:
+		return nil, locale.ErrPolyFilterIsInvalid
+
 	case enums.FilterTypeUndefined:
 		return nil, locale.ErrFilterMissingType
+
+	default:
+		return nil, locale.ErrFilterUndefined
 	}
 
 	if filter != nil {
-- 
2.43.0


From 51d84289ae50bf642841ddcbf81b8ab2c1e68501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:10 +0000
Subject: [PATCH 05/44] fix: build a poly filter from its own definition

---
 internal/filtering/builders.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/filtering/builders.go b/internal/filtering/builders.go
index e937a55..f742985 100644
--- a/internal/filtering/builders.go
+++ b/internal/filtering/builders.go
@@ -66,7 +66,11 @@ func buildPolyNodeFilter(definition *core.FilterDef,
 	if definition.Type != enums.FilterTypePoly {
 		return nil, nil
 	}
-	polyDef := fo.Node.Poly
+	polyDef := definition.Poly
+
+	if polyDef == nil {
+		return nil, locale.ErrPolyFilterIsInvalid
+	}
 
 	// enforce the correct filter scopes
 	//
-- 
2.43.0


From 384e695d75eaeebee313a76e4dd113d1a88e6f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:24 +0000
Subject: [PATCH 06/44] fix: use the custom filter only for definitions that
 ask for it

---
 internal/filtering/builders.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/filtering/builders.go b/internal/filtering/builders.go
index f742985..1375eb3 100644
--- a/internal/filtering/builders.go
+++ b/internal/filtering/builders.go
@@ -133,9 +133,13 @@ func buildConstituent(definition *core.FilterDef,
 	return filter, err
 }
 
-func getCustomFilter(_ *core.FilterDef,
+func getCustomFilter(definition *core.FilterDef,
 	fo *pref.FilterOptions,
 ) (core.TraverseFilter, error) {
+	if definition.Type != enums.FilterTypeCustom {
+		return nil, nil
+	}
+
 	return fo.Custom, nil
 }
 
-- 
2.43.0


From 2465e4d36643c4165c21501e5e14cc565d0ff97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:38 +0000
Subject: [PATCH 07/44] fix: report a missing custom filter instead of building
 a nil filter

---
 internal/filtering/builders.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/internal/filtering/builders.go b/internal/filtering/builders.go
index 1375eb3..be46df5 100644
--- a/internal/filtering/builders.go
+++ b/internal/filtering/builders.go
@@ -27,8 +27,11 @@ func buildNativeNodeFilter(definition *core.FilterDef) (core.TraverseFilter, err
 	case enums.FilterTypeGlob:
 		filter = createGlobFilter(definition, ifNotApplicable)
 
-	case enums.FilterTypeCustom, enums.FilterTypePoly:
-		return nil, nil
+	case enums.FilterTypeCustom:
+		return nil, locale.ErrMissingCustomFilterDefinition
+
+	case enums.FilterTypePoly:
+		return nil, locale.ErrPolyFilterIsInvalid
 
 	case enums.FilterTypeUndefined:
 		return nil, locale.ErrFilterMissingType
-- 
2.43.0


From 4b8bb2172b19ebc0d2618a41434507c158c7f0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:52 +0000
Subject: [PATCH 08/44] fix: filters must cope with the tree node, which has no
 parent

---
 internal/feat/resume/strategy-fastward.go | 4 ++++
 internal/filtering/poly.go                | 6 +++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/internal/feat/resume/strategy-fastward.go b/internal/feat/resume/strategy-fastward.go
index 84dfd58..cc465f9 100644
--- a/internal/feat/resume/strategy-fastward.go
+++ b/internal/feat/resume/strategy-fastward.go
@@ -39,6 +39,10 @@ func (f *FastwardFilter) Source() string {
 
 // IsMatch does this node match the filter
 func (f *FastwardFilter) IsMatch(node *core.Node) bool {
+	if node.Parent == nil {
+		return node.Path == f.source
+	}
+
 	return node.Extension.Name == f.name && (node.Parent.Path == f.parent || f.parent == ".")
 }
 
diff --git a/internal/filtering/poly.go b/internal/filtering/poly.go
index 0ed6330..7fc6c75 100644
--- a/internal/filtering/poly.go
+++ b/internal/filtering/poly.go
@@ -65,7 +65,11 @@ func (f *Poly) Source() string {
 // the poly directory filter. Returns true of the current node is a directory.
 func (f *Poly) IsMatch(node *core.Node) bool {
 	if !node.IsDirectory() {
-		return f.Directory.IsMatch(node.Parent) && f.File.IsMatch(node)
+		if node.Parent != nil && !f.Directory.IsMatch(node.Parent) {
+			return false
+		}
+
+		return f.File.IsMatch(node)
 	}
 
 	return true
-- 
2.43.0


From 2f43bb6cdb72110b9e28f046c043bac851e79d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:05 +0000
Subject: [PATCH 09/44] fix: give file nodes empty contents instead of nil
 contents

---
 internal/kernel/navigation-vapour.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/kernel/navigation-vapour.go b/internal/kernel/navigation-vapour.go
index ec6c627..b999218 100644
--- a/internal/kernel/navigation-vapour.go
+++ b/internal/kernel/navigation-vapour.go
@@ -38,7 +38,9 @@ func (v *navigationVapour) clear() {
 	if v.cargo != nil {
 		v.cargo.clear()
 	} else {
-		newEmptyContents()
+		v.cargo = NewContents(&v.ns.mediator.o.Behaviours.Sort,
+			v.ns.mediator.o.Hooks.Sort, []fs.DirEntry{},
+		)
 	}
 }
 
-- 
2.43.0


From bb0be27adf0e053aa3785c44e07cc50a142bfe14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:58 +0000
Subject: [PATCH 10/44] fix: fs.SkipAll ends the traversal and fs.SkipDir only
 skips

---
 driver.go                              | 7 +++++++
 internal/feat/resume/strategy-spawn.go | 5 +++++
 internal/kernel/navigator-agent.go     | 7 ++++---
 3 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/driver.go b/driver.go
index d690cf3..694c1ee 100644
--- a/driver.go
+++ b/driver.go
@@ -6,6 +6,7 @@ import (
 	"github.com/snivilised/agenor/core"
 	"github.com/snivilised/agenor/internal/services"
 	"github.com/snivilised/agenor/internal/third/bus"
+	"github.com/snivilised/agenor/stock"
 )
 
 const (
@@ -33,5 +34,11 @@ func (d *driver) Navigate(ctx context.Context) (core.TraverseResult, error) {
 
 	d.s.finish(result)
 
+	if stock.IsBenignError(err) {
+		// skipping is a request made by the client, not a failure
+		//
+		return result, nil
+	}
+
 	return result, err
 }
diff --git a/internal/feat/resume/strategy-spawn.go b/internal/feat/resume/strategy-spawn.go
index 8a8a5d4..aa61992 100644
--- a/internal/feat/resume/strategy-spawn.go
+++ b/internal/feat/resume/strategy-spawn.go
@@ -2,6 +2,7 @@ package resume
 
 import (
 	"context"
+	"errors"
 	"io/fs"
 
 	"github.com/snivilised/agenor/core"
@@ -105,6 +106,10 @@ func (s *spawnStrategy) seed(ctx context.Context,
 		top := s.calc.Join(parent, entry.Name())
 		intermediate, err := s.mediator.Spawn(ctx, top)
 
+		if errors.Is(err, fs.SkipDir) {
+			continue
+		}
+
 		if err != nil {
 			return intermediate, err
 		}
diff --git a/internal/kernel/navigator-agent.go b/internal/kernel/navigator-agent.go
index 9a0b04e..1bf71f8 100644
--- a/internal/kernel/navigator-agent.go
+++ b/internal/kernel/navigator-agent.go
@@ -178,7 +178,7 @@ func (n *navigatorAgent) travel(ctx context.Context,
 					// processing of all of the parent node's remaining children.
 					// (see the ✨ below ...)
 					//
-					return skipTraversal, err
+					return continueTraversal, err
 				}
 
 				return continueTraversal, err
@@ -190,9 +190,10 @@ func (n *navigatorAgent) travel(ctx context.Context,
 			switch {
 			case errors.Is(err, fs.SkipDir):
 				continue
-			case errors.Is(err, fs.SkipAll):
-				break
 			default:
+				// includes fs.SkipAll, which has to reach the top in
+				// order to end the traversal.
+				//
 				return continueTraversal, err
 			}
 		}
-- 
2.43.0


From 77d6d27fafd059dc18c2e5ba19d6388a5cc71a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:12 +0000
Subject: [PATCH 11/44] fix: honour the skip requested by the skip handler

---
 internal/kernel/navigator-agent.go       | 10 ++++++++++
 internal/kernel/navigator-directories.go |  4 +++-
 internal/kernel/navigator-files.go       |  6 +++---
 internal/kernel/navigator-universal.go   |  2 +-
 4 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/internal/kernel/navigator-agent.go b/internal/kernel/navigator-agent.go
index 1bf71f8..281dfdb 100644
--- a/internal/kernel/navigator-agent.go
+++ b/internal/kernel/navigator-agent.go
@@ -93,6 +93,16 @@ const (
 	skipTraversal     = false
 )
 
+// terminate denotes the error that ends the traversal, when the skip
+// handler requests to skip everything that remains.
+func terminate(err error) error {
+	if err != nil {
+		return err
+	}
+
+	return fs.SkipAll
+}
+
 // travel is the general recursive navigation function which returns a bool
 // indicating whether we continue travelling or not in response to an
 // error.
diff --git a/internal/kernel/navigator-directories.go b/internal/kernel/navigator-directories.go
index 15ab53d..94bb001 100644
--- a/internal/kernel/navigator-directories.go
+++ b/internal/kernel/navigator-directories.go
@@ -42,7 +42,9 @@ func (n *navigatorDirectories) Traverse(ctx context.Context,
 	if skip, e := ns.mediator.o.Defects.Skip.Ask(
 		current, vapour.Contents(), err,
 	); skip == enums.SkipAllTraversal {
-		return continueTraversal, e
+		return continueTraversal, terminate(e)
+	} else if skip == enums.SkipDirTraversal {
+		return skipTraversal, e
 	}
 
 	return n.travel(ctx, ns, vapour)
diff --git a/internal/kernel/navigator-files.go b/internal/kernel/navigator-files.go
index f3e6e0e..87b6c0d 100644
--- a/internal/kernel/navigator-files.go
+++ b/internal/kernel/navigator-files.go
@@ -49,10 +49,10 @@ func (n *navigatorFiles) Traverse(ctx context.Context,
 
 	if skip, e := ns.mediator.o.Defects.Skip.Ask(
 		current, vapour.Contents(), err,
-	); skip == enums.SkipAllTraversal || err != nil {
+	); skip == enums.SkipAllTraversal {
+		return continueTraversal, terminate(e)
+	} else if skip == enums.SkipDirTraversal || err != nil {
 		return continueTraversal, e
-	} else if skip == enums.SkipDirTraversal {
-		return true, e
 	}
 
 	return n.travel(ctx, ns, vapour)
diff --git a/internal/kernel/navigator-universal.go b/internal/kernel/navigator-universal.go
index 6e67e3a..580620c 100644
--- a/internal/kernel/navigator-universal.go
+++ b/internal/kernel/navigator-universal.go
@@ -42,7 +42,7 @@ func (n *navigatorUniversal) Traverse(ctx context.Context,
 	if skip, e := ns.mediator.o.Defects.Skip.Ask(
 		current, vapour.Contents(), err,
 	); skip == enums.SkipAllTraversal {
-		return continueTraversal, e
+		return continueTraversal, terminate(e)
 	} else if skip == enums.SkipDirTraversal {
 		return skipTraversal, e
 	}
-- 
2.43.0


From 9d138805b412682ab4093cd780c21c5b966cb623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:58 +0000
Subject: [PATCH 12/44] fix: describe an invalid poly filter with its own
 message

---
 locale/messages-errors.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/locale/messages-errors.go b/locale/messages-errors.go
index ca79c3e..ceee2be 100644
--- a/locale/messages-errors.go
+++ b/locale/messages-errors.go
@@ -447,7 +447,7 @@ type PolyFilterIsInvalidError struct {
 
 var ErrPolyFilterIsInvalid = PolyFilterIsInvalidError{
 	LocalisableError: li18ngo.LocalisableError{
-		Data: FilterIsNilErrorTemplData{},
+		Data: PolyFilterIsInvalidTemplData{},
 	},
 }
 
-- 
2.43.0


From 2d7219fdd0b098f7afa46b9ad56c67bfa7eaf58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:12 +0000
Subject: [PATCH 13/44] fix: provide the fields that the traversal saved
 messages refer to

---
 locale/messages-errors.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/locale/messages-errors.go b/locale/messages-errors.go
index ceee2be..d3b2f08 100644
--- a/locale/messages-errors.go
+++ b/locale/messages-errors.go
@@ -722,6 +722,7 @@ var ErrCoreResumeFsMismatch = CoreResumeFsMismatchError{
 // 🍒 TraversalSaved (dynamic i18n error)
 type TraversalSavedTemplData struct {
 	agenorTemplData
+	Field string
 }
 
 func (td TraversalSavedTemplData) Message() *i18n.Message {
@@ -749,7 +750,9 @@ func (e TraversalSavedError) Unwrap() error {
 func NewTraversalSavedError(destination string, _ error) error {
 	return &TraversalSavedError{
 		LocalisableError: li18ngo.LocalisableError{
-			Data: TraversalSavedTemplData{},
+			Data: TraversalSavedTemplData{
+				Field: destination,
+			},
 		},
 		Wrapped:     ErrCorePanicOccurred,
 		Destination: destination,
@@ -759,6 +762,7 @@ func NewTraversalSavedError(destination string, _ error) error {
 // 🍒 TraversalNotSaved (dynamic i18n error)
 type TraversalNotSavedTemplData struct {
 	agenorTemplData
+	Reason string
 }
 
 func (td TraversalNotSavedTemplData) Message() *i18n.Message {
@@ -788,7 +792,9 @@ func (e TraversalNotSavedError) Unwrap() error {
 func NewTraversalNotSavedError(_, reason error) error {
 	return &TraversalNotSavedError{
 		LocalisableError: li18ngo.LocalisableError{
-			Data: TraversalNotSavedTemplData{},
+			Data: TraversalNotSavedTemplData{
+				Reason: reason.Error(),
+			},
 		},
 		Wrapped: ErrCorePanicOccurred,
 		Reason:  reason,
-- 
2.43.0


From 0c1baffebf123a0b84f443de24d73ea8b13c487c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:27 +0000
Subject: [PATCH 14/44] fix: report what caused the panic that interrupted the
 traversal

---
 internal/kernel/navigator-agent.go | 3 ++-
 locale/messages-errors.go          | 8 ++++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/internal/kernel/navigator-agent.go b/internal/kernel/navigator-agent.go
index 281dfdb..d989336 100644
--- a/internal/kernel/navigator-agent.go
+++ b/internal/kernel/navigator-agent.go
@@ -3,6 +3,7 @@ package kernel
 import (
 	"context"
 	"errors"
+	"fmt"
 	"io/fs"
 	"path/filepath"
 
@@ -135,7 +136,7 @@ func (n *navigatorAgent) travel(ctx context.Context,
 
 			panicErr, ok := data.(error)
 			if !ok {
-				panicErr = errors.New("")
+				panicErr = fmt.Errorf("%v", data)
 			}
 
 			if rescueErr != nil {
diff --git a/locale/messages-errors.go b/locale/messages-errors.go
index d3b2f08..dde5544 100644
--- a/locale/messages-errors.go
+++ b/locale/messages-errors.go
@@ -747,14 +747,14 @@ func (e TraversalSavedError) Unwrap() error {
 	return e.Wrapped
 }
 
-func NewTraversalSavedError(destination string, _ error) error {
+func NewTraversalSavedError(destination string, cause error) error {
 	return &TraversalSavedError{
 		LocalisableError: li18ngo.LocalisableError{
 			Data: TraversalSavedTemplData{
 				Field: destination,
 			},
 		},
-		Wrapped:     ErrCorePanicOccurred,
+		Wrapped:     fmt.Errorf("%w: %v", ErrCorePanicOccurred, cause),
 		Destination: destination,
 	}
 }
@@ -789,14 +789,14 @@ func (e TraversalNotSavedError) Unwrap() error {
 	return e.Wrapped
 }
 
-func NewTraversalNotSavedError(_, reason error) error {
+func NewTraversalNotSavedError(cause, reason error) error {
 	return &TraversalNotSavedError{
 		LocalisableError: li18ngo.LocalisableError{
 			Data: TraversalNotSavedTemplData{
 				Reason: reason.Error(),
 			},
 		},
-		Wrapped: ErrCorePanicOccurred,
+		Wrapped: fmt.Errorf("%w: %v", ErrCorePanicOccurred, cause),
 		Reason:  reason,
 	}
 }
-- 
2.43.0


From 8888fb7d3612c1cc53257c6bb09c510a2e964a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:07 +0000
Subject: [PATCH 15/44] fix: rescue a panic that occurs for the tree node
 itself

---
 internal/kernel/navigator-agent.go | 97 ++++++++++++++++++------------
 1 file changed, 57 insertions(+), 40 deletions(-)

diff --git a/internal/kernel/navigator-agent.go b/internal/kernel/navigator-agent.go
index d989336..f771421 100644
--- a/internal/kernel/navigator-agent.go
+++ b/internal/kernel/navigator-agent.go
@@ -61,19 +61,35 @@ func (n *navigatorAgent) top(ctx context.Context,
 			})
 		},
 		func() error {
-			_, te := ns.mediator.impl.Traverse(ctx, ns,
-				servant{
-					node: core.Top(ns.tree, info),
-				},
-			)
-
-			return te
+			return n.summit(ctx, ns, core.Top(ns.tree, info))
 		},
 	)
 
 	return ns.mediator.impl.Result(ctx), err
 }
 
+// summit starts the traversal at the tree node, which has no parent node whose
+// travel would otherwise rescue a panic
+func (n *navigatorAgent) summit(ctx context.Context,
+	ns *navigationStatic,
+	node *core.Node,
+) (err error) {
+	defer func() {
+		if data := recover(); data != nil {
+			err = n.rescue(data, ns, &navigationVapour{
+				ns:      ns,
+				present: node,
+			})
+		}
+	}()
+
+	_, err = ns.mediator.impl.Traverse(ctx, ns, servant{
+		node: node,
+	})
+
+	return err
+}
+
 // Result is the single point at which a Result is constructed. Due to
 // the spawn resume strategy, a Result may occur more than once during
 // a navigation session. The session knows when completion occurs. Any
@@ -104,6 +120,39 @@ func terminate(err error) error {
 	return fs.SkipAll
 }
 
+// rescue invokes the panic handler in response to a panic that occurred whilst
+// processing vapour and returns the resulting error
+func (n *navigatorAgent) rescue(data any,
+	ns *navigationStatic,
+	vapour inspection,
+) error {
+	// The tree on the mediator always points to the original tree root
+	// requested by the user. The tree on navigation static can be different
+	// when a spawn resume is in play; ie, the Spawn is created using a child
+	// tree and this is what is set on the navigation static when a sub tree
+	// is seeded, but this would be the incorrect tree to persist, rather, we
+	// need the real ancestor that is denoted by the mediator's tree.
+	//
+	to, rescueErr := n.ao.defects.Panic.Rescue(n, &vex{
+		data:     data,
+		anc:      ns.mediator.tree,
+		vap:      vapour,
+		catalyst: "panic",
+		mag:      n.magnitude,
+	}) // wrap???
+
+	panicErr, ok := data.(error)
+	if !ok {
+		panicErr = fmt.Errorf("%v", data)
+	}
+
+	if rescueErr != nil {
+		return locale.NewTraversalNotSavedError(panicErr, rescueErr)
+	}
+
+	return locale.NewTraversalSavedError(to, panicErr)
+}
+
 // travel is the general recursive navigation function which returns a bool
 // indicating whether we continue travelling or not in response to an
 // error.
@@ -119,39 +168,7 @@ func (n *navigatorAgent) travel(ctx context.Context,
 ) (skip bool, err error) {
 	defer func() {
 		if data := recover(); data != nil {
-			// The tree on the mediator always points to the original tree root
-			// requested by the user. The tree on navigation static can be different
-			// when a spawn resume is in play; ie, the Spawn is created using a child
-			// tree and this is what is set on the navigation static when a sub tree
-			// is seeded, but this would be the incorrect tree to persist, rather, we
-			// need the real ancestor that is denoted by the mediator's tree.
-			//
-			to, rescueErr := n.ao.defects.Panic.Rescue(n, &vex{
-				data:     data,
-				anc:      ns.mediator.tree,
-				vap:      vapour,
-				catalyst: "panic",
-				mag:      n.magnitude,
-			}) // wrap???
-
-			panicErr, ok := data.(error)
-			if !ok {
-				panicErr = fmt.Errorf("%v", data)
-			}
-
-			if rescueErr != nil {
-				err = locale.NewTraversalNotSavedError(panicErr, rescueErr)
-			}
-
-			err = lo.TernaryF(rescueErr != nil,
-				func() error {
-					return locale.NewTraversalNotSavedError(panicErr, rescueErr)
-				},
-				func() error {
-					return locale.NewTraversalSavedError(to, panicErr)
-				},
-			)
-
+			err = n.rescue(data, ns, vapour)
 			skip = skipTraversal
 		}
 	}()
-- 
2.43.0


From 214ee48c9e3c9c7ad51ea7a9188bea1d9780f239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:21 +0000
Subject: [PATCH 16/44] fix: give the filtered out child files metric its own
 name

---
 enums/metric-en-auto.go | 12 ++++++------
 enums/metric-en.go      |  2 +-
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/enums/metric-en-auto.go b/enums/metric-en-auto.go
index 61b04ea..9260cc1 100644
--- a/enums/metric-en-auto.go
+++ b/enums/metric-en-auto.go
@@ -16,14 +16,14 @@ func _() {
 	_ = x[MetricNoChildFilesFilteredOut-6]
 }
 
-const _Metric_name = "metric-no-of-filesmetric-no-of-files-filtered-outmetric-no-of-directoriesmetric-no-of-directories-filtered-outmetric-no-of-child-files-foundmetric-no-of-child-files-found"
+const _Metric_name = "metric-no-of-filesmetric-no-of-files-filtered-outmetric-no-of-directoriesmetric-no-of-directories-filtered-outmetric-no-of-child-files-foundmetric-no-of-child-files-filtered-out"
 
-var _Metric_index = [...]uint8{0, 18, 49, 73, 110, 140, 170}
+var _Metric_index = [...]uint8{0, 18, 49, 73, 110, 140, 177}
 
 func (i Metric) String() string {
-	i -= 1
-	if i >= Metric(len(_Metric_index)-1) {
-		return "Metric(" + strconv.FormatInt(int64(i+1), 10) + ")"
+	idx := int(i) - 1
+	if i < 1 || idx >= len(_Metric_index)-1 {
+		return "Metric(" + strconv.FormatInt(int64(i), 10) + ")"
 	}
-	return _Metric_name[_Metric_index[i]:_Metric_index[i+1]]
+	return _Metric_name[_Metric_index[idx]:_Metric_index[idx+1]]
 }
diff --git a/enums/metric-en.go b/enums/metric-en.go
index 5ed4b0c..c4d757e 100644
--- a/enums/metric-en.go
+++ b/enums/metric-en.go
@@ -35,5 +35,5 @@ const (
 	// of a particular directory that fail to pass the compound filter when using
 	// the directories with files subscription
 	//
-	MetricNoChildFilesFilteredOut // metric-no-of-child-files-found
+	MetricNoChildFilesFilteredOut // metric-no-of-child-files-filtered-out
 )
-- 
2.43.0


From 9d857e0602b11fe0e9b7e9797afaa8ececfdc962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:36 +0000
Subject: [PATCH 17/44] fix: merge the metrics that only the other set contains

---
 core/metrics.go | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/core/metrics.go b/core/metrics.go
index 67a0052..fc1a6fd 100644
--- a/core/metrics.go
+++ b/core/metrics.go
@@ -1,8 +1,6 @@
 package core
 
 import (
-	"maps"
-
 	"github.com/snivilised/agenor/enums"
 )
 
@@ -58,15 +56,13 @@ func (m *NavigationMetric) Times(increment uint) MetricValue {
 }
 
 func (m Metrics) Merge(other Metrics) {
-	for mt := range maps.Keys(m) {
-		if om, foundOther := other[mt]; foundOther {
-			if metric, found := m[mt]; found {
-				metric.Times(om.Counter)
-			} else {
-				m[mt] = &NavigationMetric{
-					T:       mt,
-					Counter: om.Counter,
-				}
+	for mt, om := range other {
+		if metric, found := m[mt]; found {
+			metric.Times(om.Counter)
+		} else {
+			m[mt] = &NavigationMetric{
+				T:       mt,
+				Counter: om.Counter,
 			}
 		}
 	}
-- 
2.43.0


From 5bb2ee7d1e0e6be1e37bcc774b4e7cb576dd5e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:51 +0000
Subject: [PATCH 18/44] fix: the result of a failed navigation reports its
 metrics

---
 internal/enclave/kernel-result.go  | 4 +++-
 internal/kernel/navigator-hades.go | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/enclave/kernel-result.go b/internal/enclave/kernel-result.go
index b6e2a98..28e9b10 100644
--- a/internal/enclave/kernel-result.go
+++ b/internal/enclave/kernel-result.go
@@ -23,7 +23,9 @@ func NewResult(session core.Session,
 }
 
 func NewFailed() *KernelResult {
-	return &KernelResult{}
+	return &KernelResult{
+		reporter: NewSupervisor(),
+	}
 }
 
 func (r *KernelResult) Merge(other core.Metrics) {
diff --git a/internal/kernel/navigator-hades.go b/internal/kernel/navigator-hades.go
index 1687da7..5ec4b90 100644
--- a/internal/kernel/navigator-hades.go
+++ b/internal/kernel/navigator-hades.go
@@ -37,7 +37,7 @@ func (n *navigatorHades) Result(_ context.Context) *enclave.KernelResult {
 func (n *navigatorHades) Snooze(context.Context,
 	*core.ActiveState,
 ) (*enclave.KernelResult, error) {
-	return &enclave.KernelResult{}, nil
+	return enclave.NewFailed(), nil
 }
 
 func (n *navigatorHades) Bye(_ core.TraverseResult) {
-- 
2.43.0


From 5f527e69d6d1dad6aed4e937ca63384f42e94241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:17 +0000
Subject: [PATCH 19/44] fix: arrange the active roles in manifest order

---
 manifest.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/manifest.go b/manifest.go
index d96dd8a..17286e6 100644
--- a/manifest.go
+++ b/manifest.go
@@ -63,5 +63,12 @@ func manifest(active []enums.Role) []enums.Role {
 		initial,
 	)
 
+	// the order in which plugins are activated is of no consequence to the
+	// order in which their links are invoked
+	//
+	slices.SortFunc(roles, func(a, b enums.Role) int {
+		return slices.Index(all, a) - slices.Index(all, b)
+	})
+
 	return roles
 }
-- 
2.43.0


From 7caec9f02088091531bda3d9f13ccfb6ee86c9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:31 +0000
Subject: [PATCH 20/44] fix: validate the facade of a resume session

---
 scaffold.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scaffold.go b/scaffold.go
index 59e3242..3893309 100644
--- a/scaffold.go
+++ b/scaffold.go
@@ -63,6 +63,10 @@ func newResumePlatform(facade pref.Facade,
 			core.ErrWrongResumeFacade
 	}
 
+	if err := relic.Validate(); err != nil {
+		return resume.base.pacify(facade, settings...), err
+	}
+
 	ext := &resumeExtent{
 		baseExtent: baseExtent{
 			fac: facade,
-- 
2.43.0


From ef4c22ea5e3e380f378843f2bf6bdeb88ad80f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:46 +0000
Subject: [PATCH 21/44] fix: reject a nil forest for a prime session

---
 scaffold.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/scaffold.go b/scaffold.go
index 3893309..c4741f0 100644
--- a/scaffold.go
+++ b/scaffold.go
@@ -44,6 +44,11 @@ func newPrimaryPlatform(facade pref.Facade,
 	}
 	harvest, err := primary.buildOptions(using, addons, ext, settings...)
 
+	if trees := ext.trees; err == nil &&
+		(trees == nil || trees.T == nil || trees.R == nil) {
+		err = core.ErrNilForest
+	}
+
 	return &platform{
 		fac: facade,
 		ext: ext,
-- 
2.43.0


From 3bb24a9b3b9f96a8c172e92e5e1e49ee3e0bb885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:16 +0000
Subject: [PATCH 22/44] fix: reject an incomplete forest for a resume session

---
 scaffold.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaffold.go b/scaffold.go
index c4741f0..417651a 100644
--- a/scaffold.go
+++ b/scaffold.go
@@ -194,7 +194,7 @@ func (p *resumePlatform) buildForest(relic *pref.Relic, active *core.ActiveState
 		},
 	)
 
-	if forest == nil {
+	if forest == nil || forest.T == nil || forest.R == nil {
 		return nil
 	}
 
-- 
2.43.0


From 35a34b349db0cabeee7d977fef614efc0fd877bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:30 +0000
Subject: [PATCH 23/44] fix: reject resume state that lacks the options or the
 active state

---
 extent.go                     | 2 +-
 internal/persist/marshaler.go | 8 ++++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/extent.go b/extent.go
index 218a6bf..3888469 100644
--- a/extent.go
+++ b/extent.go
@@ -99,7 +99,7 @@ func (x *resumeExtent) options(addons []Addon,
 
 	x.loaded = loaded
 
-	if handler := x.seek(addons); handler != nil {
+	if handler := x.seek(addons); err == nil && handler != nil {
 		handler.OnLoad(loaded.State)
 	}
 
diff --git a/internal/persist/marshaler.go b/internal/persist/marshaler.go
index 1366e70..8be228d 100644
--- a/internal/persist/marshaler.go
+++ b/internal/persist/marshaler.go
@@ -2,11 +2,13 @@ package persist
 
 import (
 	ejson "encoding/json"
+	"fmt"
 	"io/fs"
 
 	"github.com/snivilised/agenor/core"
 	"github.com/snivilised/agenor/internal/enclave"
 	"github.com/snivilised/agenor/internal/opts/json"
+	"github.com/snivilised/agenor/locale"
 	"github.com/snivilised/agenor/pref"
 	nef "github.com/snivilised/nefilim"
 )
@@ -96,6 +98,12 @@ func Unmarshal(request *UnmarshalRequest,
 		fn(&mr)
 	}
 
+	if mr.JO == nil || mr.Active == nil {
+		return nil, fmt.Errorf("incomplete resume state %q: %w",
+			request.Restore.Path, locale.ErrUnEqualConversion,
+		)
+	}
+
 	result := UnmarshalResult{
 		O:      FromJSON(mr.JO),
 		Active: mr.Active,
-- 
2.43.0


From 9333c274a8bd5a6dac83a79f72ed73fe4da951d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:44 +0000
Subject: [PATCH 24/44] fix: persist the poly definition of a sample filter and
 compare it

---
 internal/persist/comparison.go   | 20 ++++++++++++++++++++
 internal/persist/json-options.go |  2 ++
 2 files changed, 22 insertions(+)

diff --git a/internal/persist/comparison.go b/internal/persist/comparison.go
index d909fd2..4ecc224 100644
--- a/internal/persist/comparison.go
+++ b/internal/persist/comparison.go
@@ -317,6 +317,16 @@ func equalFilterDef(filterName string,
 		)
 	}
 
+	if (def.Poly == nil) != (jdef.Poly == nil) {
+		return fmt.Errorf("%q filter-def %w", filterName,
+			UnequalPtrError[core.PolyFilterDef, json.PolyFilterDef]{
+				Field: "Poly",
+				Value: def.Poly,
+				Other: jdef.Poly,
+			},
+		)
+	}
+
 	if def.Poly != nil && jdef.Poly != nil {
 		if err := equalFilterDef("poly", &def.Poly.File, &jdef.Poly.File); err != nil {
 			return err
@@ -477,6 +487,16 @@ func equalSampleFilterDef(filterName string,
 		)
 	}
 
+	if (def.Poly == nil) != (jdef.Poly == nil) {
+		return fmt.Errorf("%q filter-def %w", filterName,
+			UnequalPtrError[core.PolyFilterDef, json.PolyFilterDef]{
+				Field: "Poly",
+				Value: def.Poly,
+				Other: jdef.Poly,
+			},
+		)
+	}
+
 	if def.Poly != nil && jdef.Poly != nil {
 		if err := equalFilterDef("poly", &def.Poly.File, &jdef.Poly.File); err != nil {
 			return err
diff --git a/internal/persist/json-options.go b/internal/persist/json-options.go
index c8ed026..7138624 100644
--- a/internal/persist/json-options.go
+++ b/internal/persist/json-options.go
@@ -62,6 +62,7 @@ func ToJSON(o *pref.Options) *json.Options {
 						Pattern:     o.Filter.Sample.Pattern,
 						Scope:       o.Filter.Sample.Scope,
 						Negate:      o.Filter.Sample.Negate,
+						Poly:        NodePolyDefToJSON(o.Filter.Sample.Poly),
 					}
 				},
 				func() *json.SampleFilterDef {
@@ -158,6 +159,7 @@ func FromJSON(jo *json.Options) *pref.Options {
 					Pattern:     jo.Filter.Sample.Pattern,
 					Scope:       jo.Filter.Sample.Scope,
 					Negate:      jo.Filter.Sample.Negate,
+					Poly:        NodePolyDefFromJSON(jo.Filter.Sample.Poly),
 					// TODO:Poly: tbd,
 				}
 			},
-- 
2.43.0


From 8eabd19b1cb0b24abcd7eb2ed87ebbfecb9135e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:06 +0000
Subject: [PATCH 25/44] fix: save the node that panicked as the resume point

---
 internal/kernel/author.go          |  4 +++-
 internal/kernel/navigator-agent.go | 33 +++++++++++++++++++-----------
 2 files changed, 24 insertions(+), 13 deletions(-)

diff --git a/internal/kernel/author.go b/internal/kernel/author.go
index 07ade6d..7ef86a5 100644
--- a/internal/kernel/author.go
+++ b/internal/kernel/author.go
@@ -28,8 +28,10 @@ func (a *author) write(vex vexation) (string, error) {
 	}
 
 	path := calc.Join(directory, file)
+	// the periscope has already ascended out of the node that is resumed
+	//
 	active := vapour.active(vex.ancestor(), forest,
-		static.mediator.periscope.Depth(),
+		static.mediator.periscope.Depth()+1,
 		static.mediator.metrics,
 	)
 
diff --git a/internal/kernel/navigator-agent.go b/internal/kernel/navigator-agent.go
index f771421..eb30d53 100644
--- a/internal/kernel/navigator-agent.go
+++ b/internal/kernel/navigator-agent.go
@@ -166,34 +166,43 @@ func (n *navigatorAgent) travel(ctx context.Context,
 	ns *navigationStatic,
 	vapour inspection,
 ) (skip bool, err error) {
+	var (
+		parent  = vapour.Current()
+		present = parent
+	)
+
 	defer func() {
 		if data := recover(); data != nil {
-			err = n.rescue(data, ns, vapour)
+			// the panic unwound the traversal of the child, so that is where
+			// the navigation has to be resumed.
+			//
+			err = n.rescue(data, ns, &navigationVapour{
+				ns:      ns,
+				present: present,
+			})
 			skip = skipTraversal
 		}
 	}()
 
-	var (
-		parent = vapour.Current()
-	)
-
 	for _, entry := range vapour.Entries() {
 		path := filepath.Join(parent.Path, entry.Name())
 		info, e := entry.Info()
 
 		// TODO: check sampling; should happen transparently, by plugin
 
+		present = core.New(
+			path,
+			entry,
+			info,
+			parent,
+			e,
+		)
+
 		// TODO: ok for Travel to by-pass mediator?
 		//
 		if progress, err := ns.mediator.impl.Traverse(
 			ctx, ns, servant{
-				node: core.New(
-					path,
-					entry,
-					info,
-					parent,
-					e,
-				),
+				node: present,
 			},
 		); !progress {
 			if err != nil {
-- 
2.43.0


From cbb1aa60ad6b7998f811a82a514006f050132a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:13 +0000
Subject: [PATCH 26/44] fix: identify the resume point of a fastward by its
 path

---
 internal/feat/resume/strategy-fastward.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/internal/feat/resume/strategy-fastward.go b/internal/feat/resume/strategy-fastward.go
index cc465f9..8eadc6d 100644
--- a/internal/feat/resume/strategy-fastward.go
+++ b/internal/feat/resume/strategy-fastward.go
@@ -17,8 +17,7 @@ type FastwardFilter struct {
 	source      string
 	description string
 	scope       enums.FilterScope
-	parent      string
-	name        string
+	bare        bool // just a name, which can't be the path of a node
 }
 
 // Description describes filter
@@ -39,11 +38,11 @@ func (f *FastwardFilter) Source() string {
 
 // IsMatch does this node match the filter
 func (f *FastwardFilter) IsMatch(node *core.Node) bool {
-	if node.Parent == nil {
-		return node.Path == f.source
+	if f.bare {
+		return node.Extension.Name == f.source
 	}
 
-	return node.Extension.Name == f.name && (node.Parent.Path == f.parent || f.parent == ".")
+	return node.Path == f.source
 }
 
 // IsApplicable is this filter applicable to this node's scope
@@ -85,7 +84,8 @@ func (s *fastwardStrategy) init(load *opts.LoadInfo) (err error) {
 	//
 	calc := s.forest.T.Calc()
 	scope := lo.Ternary(load.State.IsDir, enums.ScopeDirectory, enums.ScopeFile)
-	parent := calc.Dir(load.State.CurrentPath)
+	bare := calc.Dir(load.State.CurrentPath) == "." &&
+		calc.Clean(load.State.Tree) != "."
 
 	s.filter, err = filtering.New(
 		&core.FilterDef{
@@ -98,8 +98,7 @@ func (s *fastwardStrategy) init(load *opts.LoadInfo) (err error) {
 				),
 				scope:  scope,
 				source: load.State.CurrentPath,
-				parent: parent,
-				name:   calc.Base(load.State.CurrentPath),
+				bare:   bare,
 			},
 		},
 	)
-- 
2.43.0


From 78606efa86d5519e2179c69d1497278e85e42cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:22 +0000
Subject: [PATCH 27/44] fix: spawn resume terminates for any form of tree path

---
 internal/feat/resume/strategy-spawn.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/internal/feat/resume/strategy-spawn.go b/internal/feat/resume/strategy-spawn.go
index aa61992..d35ebb1 100644
--- a/internal/feat/resume/strategy-spawn.go
+++ b/internal/feat/resume/strategy-spawn.go
@@ -60,7 +60,14 @@ func (s *spawnStrategy) ifResult() bool {
 func (s *spawnStrategy) crown(ctx context.Context,
 	conc *conclusion,
 ) (*enclave.KernelResult, error) {
-	if conc.current == conc.active.Tree {
+	if s.calc.Clean(conc.current) == s.calc.Clean(conc.active.Tree) {
+		if conc.inclusive {
+			// nothing has been completed, so all of the tree remains
+			//
+			s.complete = true
+			return s.mediator.Spawn(ctx, conc.active.Tree)
+		}
+
 		if s.complete {
 			return nil, core.ErrDetectedSpawnStackOverflow
 		}
@@ -71,7 +78,11 @@ func (s *spawnStrategy) crown(ctx context.Context,
 		return s.kc.Result(ctx), nil
 	}
 
-	parent, child := s.calc.Split(conc.current)
+	parent, child := s.calc.Dir(conc.current), s.calc.Base(conc.current)
+	if parent == conc.current {
+		return s.kc.Result(ctx), core.ErrDetectedSpawnStackOverflow
+	}
+
 	following, err := s.following(parent,
 		child,
 		conc.inclusive,
@@ -103,7 +114,7 @@ func (s *spawnStrategy) seed(ctx context.Context,
 	result := s.kc.Result(ctx)
 
 	for _, entry := range entries {
-		top := s.calc.Join(parent, entry.Name())
+		top := s.calc.Clean(s.calc.Join(parent, entry.Name()))
 		intermediate, err := s.mediator.Spawn(ctx, top)
 
 		if errors.Is(err, fs.SkipDir) {
-- 
2.43.0


From e50f7309982e51d9f9af989ccbe39b14d4ba2194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:46 +0000
Subject: [PATCH 28/44] fix: spawn resumes the siblings that follow in the
 order of traversal

---
 internal/feat/resume/resume-defs.go    |  7 ++---
 internal/feat/resume/strategy-spawn.go | 39 ++++++++++++++++----------
 2 files changed, 27 insertions(+), 19 deletions(-)

diff --git a/internal/feat/resume/resume-defs.go b/internal/feat/resume/resume-defs.go
index 3b89259..831024a 100644
--- a/internal/feat/resume/resume-defs.go
+++ b/internal/feat/resume/resume-defs.go
@@ -2,10 +2,10 @@ package resume
 
 import (
 	"context"
+	"io/fs"
 
 	"github.com/snivilised/agenor/core"
 	"github.com/snivilised/agenor/internal/enclave"
-	"github.com/snivilised/agenor/internal/kernel"
 	"github.com/snivilised/agenor/internal/opts"
 	"github.com/snivilised/agenor/pref"
 )
@@ -15,8 +15,7 @@ import (
 // these may be internal modules, eg internal/serial/JSON).
 
 const (
-	badge             = "badge: resume"
-	followingSiblings = true
+	badge = "badge: resume"
 )
 
 type (
@@ -46,6 +45,6 @@ type (
 	}
 
 	shard struct {
-		siblings *kernel.Contents
+		siblings []fs.DirEntry
 	}
 )
diff --git a/internal/feat/resume/strategy-spawn.go b/internal/feat/resume/strategy-spawn.go
index d35ebb1..f6d0c25 100644
--- a/internal/feat/resume/strategy-spawn.go
+++ b/internal/feat/resume/strategy-spawn.go
@@ -91,10 +91,7 @@ func (s *spawnStrategy) crown(ctx context.Context,
 		return s.kc.Result(ctx), err
 	}
 
-	following.siblings.Sort(enums.EntryTypeFile)
-	following.siblings.Sort(enums.EntryTypeDirectory)
-
-	result, err := s.seed(ctx, parent, following.siblings.All())
+	result, err := s.seed(ctx, parent, following.siblings)
 
 	if err != nil {
 		return result, err
@@ -138,19 +135,31 @@ func (s *spawnStrategy) following(parent, anchor string,
 		return nil, err
 	}
 
-	groups := lo.GroupBy(entries, func(entry fs.DirEntry) bool {
-		if inclusive {
-			return entry.Name() >= anchor
+	contents := kernel.NewContents(
+		&s.o.Behaviours.Sort,
+		s.o.Hooks.Sort,
+		entries,
+	)
+	contents.Sort(enums.EntryTypeAll)
+
+	// the siblings have to be presented in the order in which they would
+	// have been traversed, since that is what decides which of them remain.
+	//
+	siblings := contents.All()
+
+	for i, entry := range siblings {
+		if entry.Name() == anchor {
+			return &shard{
+				siblings: siblings[lo.Ternary(inclusive, i, i+1):],
+			}, nil
 		}
+	}
 
-		return entry.Name() > anchor
-	})
-
+	// the anchor no longer exists
+	//
 	return &shard{
-		siblings: kernel.NewContents(
-			&s.o.Behaviours.Sort,
-			s.o.Hooks.Sort,
-			groups[followingSiblings],
-		),
+		siblings: lo.Filter(siblings, func(entry fs.DirEntry, _ int) bool {
+			return entry.Name() > anchor
+		}),
 	}, nil
 }
-- 
2.43.0


From 1cc9c88c64013bf2283de8eac8aa219fabd4cba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:23 +0000
Subject: [PATCH 29/44] fix: spawn resumes only directories for the directories
 subscriptions

---
 internal/feat/resume/strategy-spawn.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/internal/feat/resume/strategy-spawn.go b/internal/feat/resume/strategy-spawn.go
index f6d0c25..bb3190b 100644
--- a/internal/feat/resume/strategy-spawn.go
+++ b/internal/feat/resume/strategy-spawn.go
@@ -145,7 +145,10 @@ func (s *spawnStrategy) following(parent, anchor string,
 	// the siblings have to be presented in the order in which they would
 	// have been traversed, since that is what decides which of them remain.
 	//
-	siblings := contents.All()
+	siblings := lo.TernaryF(s.directoriesOnly(),
+		contents.Directories,
+		contents.All,
+	)
 
 	for i, entry := range siblings {
 		if entry.Name() == anchor {
@@ -163,3 +166,9 @@ func (s *spawnStrategy) following(parent, anchor string,
 		}),
 	}, nil
 }
+
+// directoriesOnly indicates that files are not traversed
+func (s *spawnStrategy) directoriesOnly() bool {
+	return s.active.Subscription == enums.SubscribeDirectories ||
+		s.active.Subscription == enums.SubscribeDirectoriesWithFiles
+}
-- 
2.43.0


From c0f61e928bb68db3b217fca7a7716c85fb140b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:39 +0000
Subject: [PATCH 30/44] fix: spawn resume measures the depth of each level it
 returns to

---
 internal/enclave/enclave-defs.go       | 1 +
 internal/feat/resume/strategy-spawn.go | 1 +
 internal/kernel/mediator.go            | 6 ++++++
 3 files changed, 8 insertions(+)

diff --git a/internal/enclave/enclave-defs.go b/internal/enclave/enclave-defs.go
index 89dfa12..42e1852 100644
--- a/internal/enclave/enclave-defs.go
+++ b/internal/enclave/enclave-defs.go
@@ -84,6 +84,7 @@ type (
 		Read(path string) ([]fs.DirEntry, error)
 		Spawn(ctx context.Context, tree string) (*KernelResult, error)
 		Bridge(active *core.ActiveState)
+		Surface()
 		Supervisor() *Supervisor
 	}
 
diff --git a/internal/feat/resume/strategy-spawn.go b/internal/feat/resume/strategy-spawn.go
index bb3190b..bcd1799 100644
--- a/internal/feat/resume/strategy-spawn.go
+++ b/internal/feat/resume/strategy-spawn.go
@@ -99,6 +99,7 @@ func (s *spawnStrategy) crown(ctx context.Context,
 
 	conc.current = parent
 	conc.inclusive = false
+	s.mediator.Surface()
 
 	return s.crown(ctx, conc)
 }
diff --git a/internal/kernel/mediator.go b/internal/kernel/mediator.go
index dfcd334..815915d 100644
--- a/internal/kernel/mediator.go
+++ b/internal/kernel/mediator.go
@@ -107,6 +107,12 @@ func (m *mediator) Bridge(active *core.ActiveState) {
 	m.Supervisor().Load(active.Metrics)
 }
 
+// Surface denotes that the nodes spawned subsequently are one level further
+// up than those spawned before
+func (m *mediator) Surface() {
+	m.periscope.Offset(-1)
+}
+
 func (m *mediator) Supervisor() *enclave.Supervisor {
 	return m.resources.Supervisor
 }
-- 
2.43.0


From 3ffff11339d533ef63b28c2c9bd8c80104564dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:55 +0000
Subject: [PATCH 31/44] fix: sub paths of a spawned node are relative to the
 original tree

---
 internal/kernel/extend.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/kernel/extend.go b/internal/kernel/extend.go
index 9de85a9..4fd1113 100644
--- a/internal/kernel/extend.go
+++ b/internal/kernel/extend.go
@@ -38,7 +38,7 @@ func extend(ns *navigationStatic, vapour inspection) {
 	keepTrailingSep := ns.mediator.o.Behaviours.SubPath.KeepTrailingSep
 
 	spInfo := &core.SubPathInfo{
-		Tree:            ns.tree,
+		Tree:            ns.mediator.tree,
 		Node:            current,
 		KeepTrailingSep: keepTrailingSep,
 	}
-- 
2.43.0


From 3fd85528f3f656c887e3ef26c2410e8d35219191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:45 +0000
Subject: [PATCH 32/44] fix: a resumed session continues in the hibernation
 state it was saved in

---
 builders.go                                     | 12 +++++++++---
 internal/enclave/enclave-defs.go                |  3 +++
 internal/feat/hiber/hibernate-defs.go           |  3 ++-
 internal/feat/hiber/hibernate-plugin.go         |  2 +-
 internal/feat/hiber/hibernate-simple-profile.go | 12 ++++++++++--
 internal/kernel/navigation-vapour.go            |  2 +-
 6 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/builders.go b/builders.go
index 27275c7..0608f08 100644
--- a/builders.go
+++ b/builders.go
@@ -48,14 +48,20 @@ func (bs *Builders) buildAll(addons ...Addon) (*buildArtefacts, error) {
 
 	// BUILD NAVIGATOR
 	//
+	hibernation := enums.HibernationUndefined
+	if loaded := harvest.Loaded(); loaded != nil {
+		hibernation = loaded.State.Hibernation
+	}
+
 	artefacts := bs.navigator.Build(&kernel.Inception{
 		Facade:       ext.facade(),
 		Subscription: ext.subscription(),
 		Harvest:      harvest,
 		Resources: &enclave.Resources{
-			Forest:     ext.forest(),
-			Supervisor: enclave.NewSupervisor(),
-			Binder:     harvest.Binder(),
+			Forest:      ext.forest(),
+			Supervisor:  enclave.NewSupervisor(),
+			Binder:      harvest.Binder(),
+			Hibernation: hibernation,
 		},
 	})
 
diff --git a/internal/enclave/enclave-defs.go b/internal/enclave/enclave-defs.go
index 42e1852..c2d8c60 100644
--- a/internal/enclave/enclave-defs.go
+++ b/internal/enclave/enclave-defs.go
@@ -93,6 +93,9 @@ type (
 		Forest     *core.Forest
 		Supervisor *Supervisor
 		Binder     *opts.Binder
+		// Hibernation is the current hibernation state; initially that of the
+		// session being resumed, if there is one.
+		Hibernation enums.Hibernation
 	}
 
 	// Plugin used to define interaction with supplementary features
diff --git a/internal/feat/hiber/hibernate-defs.go b/internal/feat/hiber/hibernate-defs.go
index b9c34d3..c58e1a5 100644
--- a/internal/feat/hiber/hibernate-defs.go
+++ b/internal/feat/hiber/hibernate-defs.go
@@ -44,7 +44,7 @@ type (
 	}
 
 	profile interface {
-		init(controls *life.Controls) error
+		init(controls *life.Controls, resources *enclave.Resources) error
 		next(servant core.Servant, node *core.Node,
 			inspection enclave.Inspection,
 		) (bool, error)
@@ -55,6 +55,7 @@ type (
 		fo       *pref.FilterOptions
 		triggers triggers
 		controls *life.Controls
+		res      *enclave.Resources
 	}
 )
 
diff --git a/internal/feat/hiber/hibernate-plugin.go b/internal/feat/hiber/hibernate-plugin.go
index 90c8129..37db21a 100644
--- a/internal/feat/hiber/hibernate-plugin.go
+++ b/internal/feat/hiber/hibernate-plugin.go
@@ -39,7 +39,7 @@ func (p *plugin) Next(servant core.Servant,
 }
 
 func (p *plugin) Init(pi *enclave.PluginInit) error {
-	if err := p.profile.init(pi.Controls); err != nil {
+	if err := p.profile.init(pi.Controls, pi.Resources); err != nil {
 		return err
 	}
 
diff --git a/internal/feat/hiber/hibernate-simple-profile.go b/internal/feat/hiber/hibernate-simple-profile.go
index cdd801e..f88daae 100644
--- a/internal/feat/hiber/hibernate-simple-profile.go
+++ b/internal/feat/hiber/hibernate-simple-profile.go
@@ -18,9 +18,10 @@ type simple struct {
 	current state
 }
 
-func (p *simple) init(controls *life.Controls) error {
+func (p *simple) init(controls *life.Controls, resources *enclave.Resources) error {
 	p.states = p.create()
 	p.controls = controls
+	p.res = resources
 
 	if p.common.ho.WakeAt != nil {
 		filter, err := filtering.New(p.common.ho.WakeAt, p.common.fo)
@@ -56,13 +57,20 @@ func (p *simple) init(controls *life.Controls) error {
 		}
 	}
 
-	p.transition(launch(p.common.ho))
+	// a resumed session continues in the state in which it was interrupted
+	//
+	if _, found := p.states[resources.Hibernation]; found {
+		p.transition(resources.Hibernation)
+	} else {
+		p.transition(launch(p.common.ho))
+	}
 
 	return nil
 }
 
 func (p *simple) transition(en enums.Hibernation) {
 	p.current = p.states[en]
+	p.res.Hibernation = en
 }
 
 func (p *simple) next(servant core.Servant, node *core.Node, inspection enclave.Inspection) (bool, error) {
diff --git a/internal/kernel/navigation-vapour.go b/internal/kernel/navigation-vapour.go
index b999218..99ccd6c 100644
--- a/internal/kernel/navigation-vapour.go
+++ b/internal/kernel/navigation-vapour.go
@@ -58,7 +58,7 @@ func (v *navigationVapour) active(tree string,
 			IsRelative: forest.R.IsRelative(),
 		},
 		Subscription: v.ns.subscription,
-		Hibernation:  enums.HibernationRetired, // TODO:check
+		Hibernation:  v.ns.mediator.resources.Hibernation,
 		CurrentPath:  v.present.Path,
 		IsDir:        v.present.IsDirectory(),
 		Depth:        depth,
-- 
2.43.0


From 4a916a83d5857d370213870cfb7ad6fc8b09c64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:02 +0000
Subject: [PATCH 33/44] fix: a concurrent navigation discarded the jobs that
 were still waiting at its end

---
 synchronise.go | 56 +++++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 53 insertions(+), 3 deletions(-)

diff --git a/synchronise.go b/synchronise.go
index 965aeef..08238b4 100644
--- a/synchronise.go
+++ b/synchronise.go
@@ -2,6 +2,7 @@ package age
 
 import (
 	"context"
+	"sync/atomic"
 
 	"github.com/pkg/errors"
 	"github.com/snivilised/agenor/core"
@@ -47,14 +48,36 @@ type concurrent struct {
 	pool    *core.TraversePool
 	inputCh pants.SourceStreamW[*core.TraverseInput]
 	swapper enclave.Swapper
+	jobs    backlog
+}
+
+// backlog keeps track of the jobs submitted to the worker pool that have not
+// been executed yet. The navigator counts as an additional job until it has
+// no more to submit.
+type backlog struct {
+	pending atomic.Int64
+	drained chan struct{}
+}
+
+func (b *backlog) open() {
+	b.drained = make(chan struct{})
+	b.pending.Store(1)
+}
+
+func (b *backlog) add() {
+	b.pending.Add(1)
+}
+
+func (b *backlog) done() {
+	if b.pending.Add(-1) == 0 {
+		close(b.drained)
+	}
 }
 
 func (c *concurrent) Navigate(ctx context.Context) (*enclave.KernelResult, error) {
 	defer func() {
 		c.close()
-		if c.pool != nil {
-			c.pool.Release(ctx)
-		}
+		c.conclude(ctx)
 	}()
 
 	if c.err != nil {
@@ -69,6 +92,7 @@ func (c *concurrent) Navigate(ctx context.Context) (*enclave.KernelResult, error
 				Handler: handler,
 			}
 
+			c.jobs.add()
 			c.inputCh <- input // TODO: support for timeout (TimeoutOnSendInput) ??? issue #333
 
 			return nil
@@ -77,6 +101,8 @@ func (c *concurrent) Navigate(ctx context.Context) (*enclave.KernelResult, error
 
 	c.pool, c.err = pants.NewManifoldFuncPool(
 		ctx, func(input *core.TraverseInput) (*core.TraverseOutput, error) {
+			defer c.jobs.done()
+
 			err := input.Handler(input.Servant)
 
 			return &core.TraverseOutput{
@@ -109,6 +135,7 @@ func (c *concurrent) Navigate(ctx context.Context) (*enclave.KernelResult, error
 }
 
 func (c *concurrent) open(ctx context.Context) {
+	c.jobs.open()
 	c.inputCh = c.pool.Source(ctx, c.wg)
 }
 
@@ -118,6 +145,29 @@ func (c *concurrent) close() {
 	}
 }
 
+// conclude releases the pool, but not before the jobs still waiting in the
+// input channel have been executed, as the pool discards jobs once released.
+func (c *concurrent) conclude(ctx context.Context) {
+	if c.inputCh == nil {
+		return
+	}
+
+	c.wg.Add(1)
+
+	go func() {
+		defer c.wg.Done()
+
+		select {
+		case <-c.jobs.drained:
+		case <-ctx.Done():
+		}
+
+		c.pool.Release(ctx)
+	}()
+
+	c.jobs.done()
+}
+
 type sequential struct {
 	trunk
 }
-- 
2.43.0


From 7839a6089973cff4d8cef4d26874376605f130fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:49 +0000
Subject: [PATCH 34/44] fix: a cancelled concurrent navigation blocked forever
 on its input channel

---
 synchronise.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/synchronise.go b/synchronise.go
index 08238b4..adce5f8 100644
--- a/synchronise.go
+++ b/synchronise.go
@@ -93,9 +93,18 @@ func (c *concurrent) Navigate(ctx context.Context) (*enclave.KernelResult, error
 			}
 
 			c.jobs.add()
-			c.inputCh <- input // TODO: support for timeout (TimeoutOnSendInput) ??? issue #333
 
-			return nil
+			// TODO: support for timeout (TimeoutOnSendInput) ??? issue #333
+			//
+			select {
+			case c.inputCh <- input:
+				return nil
+			case <-ctx.Done():
+				// the pool no longer reads from the input channel
+				//
+				c.jobs.done()
+				return ctx.Err()
+			}
 		})
 	}
 
-- 
2.43.0


From 90abfb76dfc63c0843b2560ad5509b59c5a4dc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:19 +0000
Subject: [PATCH 35/44] fix: restore the depth when a descend listener panics

---
 internal/kernel/mediator.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/internal/kernel/mediator.go b/internal/kernel/mediator.go
index 815915d..a9d8d3e 100644
--- a/internal/kernel/mediator.go
+++ b/internal/kernel/mediator.go
@@ -168,9 +168,21 @@ func (m *mediator) descend(node *core.Node) bool {
 		return false
 	}
 
+	announced := false
+
+	// when a listener panics, the node is not ascended from either
+	//
+	defer func() {
+		if !announced {
+			m.periscope.Ascend()
+		}
+	}()
+
 	m.resources.Binder.Controls.Descend.Dispatch()(node)
 
-	return true
+	announced = true
+
+	return announced
 }
 
 func (m *mediator) ascend(node *core.Node, permit bool) {
-- 
2.43.0


From 2294ff66c5fce11a77c978b9a94f91f92f36d2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:10 +0000
Subject: [PATCH 36/44] fix: independent sessions can navigate at the same time

Every navigation registers a handler with the package level broker, whose
maps were read and written without synchronisation: two sessions that
navigate in different goroutines raced and could end the process with
'concurrent map iteration and map write'. The broker now guards its
topics and handlers with a lock.
---
 internal/services/broker.go  |  6 ++---
 internal/third/bus/broker.go | 44 +++++++++++++++++++++++++++++++++---
 2 files changed, 43 insertions(+), 7 deletions(-)

diff --git a/internal/services/broker.go b/internal/services/broker.go
index dc3cef3..d720b2e 100644
--- a/internal/services/broker.go
+++ b/internal/services/broker.go
@@ -51,10 +51,8 @@ func Reset() *bus.Broker {
 
 	b.RegisterTopics(topics...)
 
-	// Access to the broker is currently un-synchronised; that is because interaction
-	// with the broker is only expected to come from a single thread. However, if we
-	// really wanted to grant access to it to other threads, we can define a wrapper
-	// function/object around it that implements synchronisation using locks.
+	// Access to the broker is synchronised by the broker itself, because independent
+	// sessions may navigate at the same time.
 	//
 	Broker = b
 
diff --git a/internal/third/bus/broker.go b/internal/third/bus/broker.go
index c8a3a6d..6032c69 100644
--- a/internal/third/bus/broker.go
+++ b/internal/third/bus/broker.go
@@ -8,6 +8,7 @@ import (
 	"context"
 	"fmt"
 	"regexp"
+	"sync"
 	"time"
 
 	"github.com/snivilised/agenor/core"
@@ -15,8 +16,10 @@ import (
 )
 
 type (
-	// Broker controls the message bus
+	// Broker controls the message bus; topics and handlers are guarded by mx, because
+	// a broker is shared by the navigations of independent sessions.
 	Broker struct {
+		mx       sync.RWMutex
 		gen      Next
 		topics   map[string][]Handler
 		handlers map[string]Handler
@@ -125,7 +128,7 @@ func WithOccurredAt(t time.Time) MessageOption {
 func (b *Broker) Emit(ctx context.Context,
 	topic string, data interface{},
 ) error {
-	handlers, ok := b.topics[topic]
+	handlers, ok := b.subscribers(topic)
 
 	if !ok {
 		return core.NewBrokerTopicNotFoundError(topic)
@@ -159,7 +162,7 @@ func (b *Broker) Emit(ctx context.Context,
 func (b *Broker) EmitWithOpts(ctx context.Context,
 	topic string, data interface{}, options ...MessageOption,
 ) error {
-	handlers, ok := b.topics[topic]
+	handlers, ok := b.subscribers(topic)
 
 	if !ok {
 		return core.NewBrokerTopicNotFoundError(topic)
@@ -189,6 +192,9 @@ func (b *Broker) EmitWithOpts(ctx context.Context,
 
 // Topics lists the all registered topics
 func (b *Broker) Topics() []string {
+	b.mx.RLock()
+	defer b.mx.RUnlock()
+
 	topics, index := make([]string, len(b.topics)), 0
 
 	for topic := range b.topics {
@@ -201,6 +207,9 @@ func (b *Broker) Topics() []string {
 
 // RegisterTopics registers topics and fulfills handlers
 func (b *Broker) RegisterTopics(topics ...string) {
+	b.mx.Lock()
+	defer b.mx.Unlock()
+
 	for _, n := range topics {
 		b.registerTopic(n)
 	}
@@ -208,6 +217,9 @@ func (b *Broker) RegisterTopics(topics ...string) {
 
 // DeregisterTopics deletes topic
 func (b *Broker) DeregisterTopics(topics ...string) {
+	b.mx.Lock()
+	defer b.mx.Unlock()
+
 	for _, n := range topics {
 		b.deregisterTopic(n)
 	}
@@ -215,6 +227,9 @@ func (b *Broker) DeregisterTopics(topics ...string) {
 
 // TopicHandlerKeys returns all handlers for the topic
 func (b *Broker) TopicHandlerKeys(topic string) []string {
+	b.mx.RLock()
+	defer b.mx.RUnlock()
+
 	handlers := b.topics[topic]
 
 	keys := make([]string, len(handlers))
@@ -228,6 +243,9 @@ func (b *Broker) TopicHandlerKeys(topic string) []string {
 
 // HandlerKeys returns list of registered handler keys
 func (b *Broker) HandlerKeys() []string {
+	b.mx.RLock()
+	defer b.mx.RUnlock()
+
 	keys, index := make([]string, len(b.handlers)), 0
 
 	for k := range b.handlers {
@@ -240,17 +258,26 @@ func (b *Broker) HandlerKeys() []string {
 
 // HandlerTopicSubscriptions returns all topic subscriptions of the handler
 func (b *Broker) HandlerTopicSubscriptions(handlerKey string) []string {
+	b.mx.RLock()
+	defer b.mx.RUnlock()
+
 	return b.handlerTopicSubscriptions(handlerKey)
 }
 
 // RegisterHandler re/register the handler to the registry
 func (b *Broker) RegisterHandler(key string, h Handler) {
+	b.mx.Lock()
+	defer b.mx.Unlock()
+
 	h.key = key
 	b.registerHandler(h)
 }
 
 // DeregisterHandler deletes handler from the registry
 func (b *Broker) DeregisterHandler(key string) {
+	b.mx.Lock()
+	defer b.mx.Unlock()
+
 	b.deregisterHandler(key)
 }
 
@@ -259,6 +286,17 @@ func (n Next) Generate() string {
 	return n()
 }
 
+// subscribers returns a copy of the topic's handlers, so that they can be
+// invoked without holding the lock.
+func (b *Broker) subscribers(topic string) ([]Handler, bool) {
+	b.mx.RLock()
+	defer b.mx.RUnlock()
+
+	handlers, ok := b.topics[topic]
+
+	return append([]Handler(nil), handlers...), ok
+}
+
 func (b *Broker) registerHandler(h Handler) {
 	b.deregisterHandler(h.key)
 	b.handlers[h.key] = h
-- 
2.43.0


From 2f62d387f2f7d2cc8c44517405cc940ff2c80f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:40 +0000
Subject: [PATCH 37/44] fix: match extended globs regardless of the case of the
 file's name

---
 internal/filtering/glob-ex.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/filtering/glob-ex.go b/internal/filtering/glob-ex.go
index 15bf900..9dd51c3 100644
--- a/internal/filtering/glob-ex.go
+++ b/internal/filtering/glob-ex.go
@@ -94,7 +94,7 @@ func (f *GlobEx) isDirectoryMatch(node *core.Node) bool {
 // this situation, the client should also set the filter's IfNotApplicable to false.
 func (f *GlobEx) IsMatch(node *core.Node) bool {
 	if f.IsApplicable(node) {
-		return f.invert(f.spec.IsMatch(node.Extension.Name))
+		return f.invert(f.spec.IsMatch(strings.ToLower(node.Extension.Name)))
 	}
 
 	return f.ifNotApplicable
-- 
2.43.0


From 50c30a771f8d4d92baa95d00d48e7e13b9751660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:40 +0000
Subject: [PATCH 38/44] fix: accept extensions without a leading dot in
 extended globs

---
 internal/filtering/glob-ex.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/filtering/glob-ex.go b/internal/filtering/glob-ex.go
index 9dd51c3..425b8e5 100644
--- a/internal/filtering/glob-ex.go
+++ b/internal/filtering/glob-ex.go
@@ -163,6 +163,10 @@ func newSpec(directoryBase, directoryExclusion string, patterns []string) (*glob
 	specs, err := lo.MapE(patterns, func(pattern string, _ int) (*patternSpec, error) {
 		pattern = strings.ToLower(strings.TrimSpace(pattern))
 
+		if !strings.ContainsAny(pattern, "."+wildcard) {
+			pattern = "." + pattern // bare extension, eg "jpg"
+		}
+
 		return parse(pattern, re)
 	})
 
-- 
2.43.0


From b04ebb6f22e23bfadcb4207c653435e561abef64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:40 +0000
Subject: [PATCH 39/44] fix: apply every exclusion of an extended glob

---
 internal/filtering/glob-ex.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/filtering/glob-ex.go b/internal/filtering/glob-ex.go
index 425b8e5..2f202c7 100644
--- a/internal/filtering/glob-ex.go
+++ b/internal/filtering/glob-ex.go
@@ -200,7 +200,9 @@ func (s globSpec) IsMatch(name string) bool { //nolint: gocritic
 		if spec.excluded(name) {
 			return false
 		}
+	}
 
+	for _, spec := range s.specs {
 		if spec.excludeExt || spec.match(name) {
 			return true
 		}
-- 
2.43.0


From 241c0975577d6b6407c4be3ca7fc0f48873ce37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:16 +0000
Subject: [PATCH 40/44] fix: keep the listeners of options given to a session

---
 life/events.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/life/events.go b/life/events.go
index 13364cb..d5cae37 100644
--- a/life/events.go
+++ b/life/events.go
@@ -1,6 +1,8 @@
 package life
 
 import (
+	"slices"
+
 	"github.com/snivilised/agenor/core"
 	"github.com/snivilised/agenor/tapable"
 )
@@ -82,8 +84,16 @@ func (c *Controls) UnmuteAll() {
 }
 
 // Bind attaches the underlying notification controllers to the
-// Events.
+// Events. The listeners of the controllers that the events have been
+// bound to before, are retained.
 func (e *Events) Bind(cs *Controls) {
+	cs.Ascend.inherit(e.Ascend)
+	cs.Begin.inherit(e.Begin)
+	cs.Descend.inherit(e.Descend)
+	cs.End.inherit(e.End)
+	cs.Wake.inherit(e.Wake)
+	cs.Sleep.inherit(e.Sleep)
+
 	e.Ascend = &cs.Ascend
 	e.Begin = &cs.Begin
 	e.Descend = &cs.Descend
@@ -92,6 +102,18 @@ func (e *Events) Bind(cs *Controls) {
 	e.Sleep = &cs.Sleep
 }
 
+// inherit takes on the listeners of the event.
+func (c *NotificationCtrl[F]) inherit(event Event[F]) {
+	from, ok := event.(*NotificationCtrl[F])
+	if !ok || from == c || !from.subscribed {
+		return
+	}
+
+	c.dispatcher = from.dispatcher
+	c.subscribed = true
+	c.listeners = slices.Clone(from.listeners)
+}
+
 // On subscribes to a life cycle event
 func (c *NotificationCtrl[F]) On(handler F) {
 	if !c.subscribed {
-- 
2.43.0


From 20aef7c458f5ba61055e859568ce1ca03d0c4955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:17 +0000
Subject: [PATCH 41/44] fix: leave the hooks of a session off the options given
 to it

---
 internal/opts/get-push.go | 27 ++++++++++++++++++++-------
 scaffold.go               |  6 ++++--
 2 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/internal/opts/get-push.go b/internal/opts/get-push.go
index 505b9ad..2f77615 100644
--- a/internal/opts/get-push.go
+++ b/internal/opts/get-push.go
@@ -1,18 +1,19 @@
 package opts
 
 import (
+	"github.com/snivilised/agenor/core"
 	"github.com/snivilised/agenor/pref"
+	"github.com/snivilised/agenor/tapable"
 )
 
 func Get(settings ...pref.Option) (o *pref.Options, b *Binder, err error) {
 	o = pref.DefaultOptions()
-
-	binder := NewBinder()
-	o.Events.Bind(binder.Controls)
+	o.Events.Bind(NewBinder().Controls)
 
 	err = apply(o, settings...)
+	o, b = Push(o)
 
-	return o, binder, err
+	return o, b, err
 }
 
 func apply(o *pref.Options, settings ...pref.Option) (err error) {
@@ -29,9 +30,21 @@ func apply(o *pref.Options, settings ...pref.Option) (err error) {
 	return err
 }
 
-func Push(o *pref.Options) *Binder {
+// Push creates the options of a session, from those provided. The session
+// works with a copy, because plugins chain functionality of their own onto the
+// hooks, which must not be left behind on options that can be used again.
+func Push(from *pref.Options) (*pref.Options, *Binder) {
+	o := *from
 	binder := NewBinder()
-	o.Events.Bind(binder.Controls)
 
-	return binder
+	o.Events.Bind(binder.Controls)
+	o.Hooks.ReadDirectory = tapable.NewHookCtrl[
+		core.ReadDirectoryHook, core.ChainReadDirectoryHook, tapable.ReadDirectoryBroadcaster,
+	](
+		from.Hooks.ReadDirectory.Invoke(),
+		tapable.GetReadDirectoryBroadcaster,
+		tapable.ReadDirectoryAttacher,
+	)
+
+	return &o, binder
 }
diff --git a/scaffold.go b/scaffold.go
index 417651a..88fc06f 100644
--- a/scaffold.go
+++ b/scaffold.go
@@ -158,9 +158,11 @@ func (p *primaryPlatform) buildOptions(using *pref.Using,
 ) (enclave.OptionHarvest, error) {
 	return func(ve error) (enclave.OptionHarvest, error) {
 		if using.O != nil {
+			o, binder := opts.Push(using.O)
+
 			return &optionHarvest{
-				o:      using.O,
-				binder: opts.Push(using.O),
+				o:      o,
+				binder: binder,
 			}, ve
 		}
 
-- 
2.43.0


From eaf6c000c8ea520a741989aa401e646db043fea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:43 +0000
Subject: [PATCH 42/44] fix: sort with case sensitivity when the sort behaviour
 asks for it

---
 pref/options.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/pref/options.go b/pref/options.go
index f58cb0b..4a25f33 100644
--- a/pref/options.go
+++ b/pref/options.go
@@ -2,6 +2,7 @@ package pref
 
 import (
 	"io"
+	"io/fs"
 	"log/slog"
 	"path/filepath"
 	"runtime"
@@ -120,7 +121,6 @@ func DefaultOptions() *Options {
 		Concurrency: ConcurrencyOptions{
 			NoW: uint(runtime.NumCPU()),
 		},
-		Hooks: newHooks(),
 		Monitor: MonitorOptions{
 			Log: nopLogger,
 			Admin: AdminOptions{
@@ -135,10 +135,12 @@ func DefaultOptions() *Options {
 		},
 	}
 
+	o.Hooks = newHooks(o)
+
 	return o
 }
 
-func newHooks() tapable.Hooks {
+func newHooks(o *Options) tapable.Hooks {
 	return tapable.Hooks{
 		FileSubPath: tapable.NewHookCtrl[
 			core.SubPathHook, core.ChainSubPathHook, tapable.SubPathBroadcaster,
@@ -175,7 +177,15 @@ func newHooks() tapable.Hooks {
 		Sort: tapable.NewHookCtrl[
 			core.SortHook, core.ChainSortHook, tapable.SortBroadcaster,
 		](
-			DefaultCaseInSensitiveSortHook,
+			func(entries []fs.DirEntry, custom ...any) {
+				if o.Behaviours.Sort.IsCaseSensitive {
+					CaseSensitiveSortHook(entries, custom...)
+
+					return
+				}
+
+				DefaultCaseInSensitiveSortHook(entries, custom...)
+			},
 			tapable.GetSortBroadcaster,
 			tapable.SortAttacher,
 		),
-- 
2.43.0


From 47251e766cae9a9d58cc499457be0ca9adcf5f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:04 +0000
Subject: [PATCH 43/44] fix: the result of a session that can't be built tells
 of its session

Session was nil in that case, and IsComplete of a resume session that
could not be built would have panicked, there being no plugin.
---
 extent.go                          |  4 +++-
 internal/enclave/kernel-result.go  |  3 ++-
 internal/kernel/navigator-hades.go | 12 +++++++-----
 3 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/extent.go b/extent.go
index 3888469..ef2b279 100644
--- a/extent.go
+++ b/extent.go
@@ -111,7 +111,9 @@ func (x *resumeExtent) options(addons []Addon,
 }
 
 func (x *resumeExtent) complete() bool {
-	return x.pin.IfResult.IsComplete()
+	// there is no plugin, if the session could not be built
+	//
+	return x.pin != nil && x.pin.IfResult.IsComplete()
 }
 
 func (x *resumeExtent) seek(addons []Addon) enclave.StateHandler {
diff --git a/internal/enclave/kernel-result.go b/internal/enclave/kernel-result.go
index 28e9b10..31d5c6c 100644
--- a/internal/enclave/kernel-result.go
+++ b/internal/enclave/kernel-result.go
@@ -22,8 +22,9 @@ func NewResult(session core.Session,
 	}
 }
 
-func NewFailed() *KernelResult {
+func NewFailed(session core.Session) *KernelResult {
 	return &KernelResult{
+		session:  session,
 		reporter: NewSupervisor(),
 	}
 }
diff --git a/internal/kernel/navigator-hades.go b/internal/kernel/navigator-hades.go
index 5ec4b90..3f0056b 100644
--- a/internal/kernel/navigator-hades.go
+++ b/internal/kernel/navigator-hades.go
@@ -16,14 +16,16 @@ func HadesNav(o *pref.Options, err error) enclave.KernelController {
 }
 
 type navigatorHades struct {
-	o   *pref.Options
-	err error
+	o       *pref.Options
+	err     error
+	session core.Session
 }
 
 func (n *navigatorHades) Rank() {
 }
 
-func (n *navigatorHades) Ignite(*enclave.Ignition) {
+func (n *navigatorHades) Ignite(ignition *enclave.Ignition) {
+	n.session = ignition.Session
 }
 
 func (n *navigatorHades) Navigate(ctx context.Context) (*enclave.KernelResult, error) {
@@ -31,13 +33,13 @@ func (n *navigatorHades) Navigate(ctx context.Context) (*enclave.KernelResult, e
 }
 
 func (n *navigatorHades) Result(_ context.Context) *enclave.KernelResult {
-	return enclave.NewFailed()
+	return enclave.NewFailed(n.session)
 }
 
 func (n *navigatorHades) Snooze(context.Context,
 	*core.ActiveState,
 ) (*enclave.KernelResult, error) {
-	return enclave.NewFailed(), nil
+	return enclave.NewFailed(n.session), nil
 }
 
 func (n *navigatorHades) Bye(_ core.TraverseResult) {
-- 
2.43.0


From fe319569808b6b1ae3369c940ffbd908120b9a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:18 +0000
Subject: [PATCH 44/44] fix: the time elapsed stops with the session

Elapsed kept on counting once the navigation had finished; the duration
noted at that point was never used.
---
 session.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/session.go b/session.go
index a77f608..4c6e66e 100644
--- a/session.go
+++ b/session.go
@@ -10,6 +10,7 @@ import (
 type session struct {
 	sync     synchroniser
 	started  time.Time
+	finished bool
 	duration time.Duration
 	plugins  []enclave.Plugin
 }
@@ -23,6 +24,7 @@ func (s *session) start() {
 
 func (s *session) finish(result *enclave.KernelResult) {
 	s.duration = time.Since(s.started)
+	s.finished = true
 	s.sync.Bye(result)
 }
 
@@ -35,6 +37,10 @@ func (s *session) StartedAt() time.Time {
 }
 
 func (s *session) Elapsed() time.Duration {
+	if s.finished {
+		return s.duration
+	}
+
 	return time.Since(s.started)
 }
 
-- 
2.43.0

