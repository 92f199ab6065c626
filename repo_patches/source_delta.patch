From 198a8cac360a17509ceac95995db53c5025f233b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:08:18 +0000
Subject: [PATCH 01/13] fix: apply events recorded after Destroy() to the root
 held by the handler

---
 engine/internal/aggregate/scope.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/engine/internal/aggregate/scope.go b/engine/internal/aggregate/scope.go
index 3679403..0eb3367 100644
--- a/engine/internal/aggregate/scope.go
+++ b/engine/internal/aggregate/scope.go
@@ -21,6 +21,7 @@ type scope struct {
 	messageIDs *envelope.MessageIDGenerator
 	observer   fact.Observer
 	root       dogma.AggregateRoot
+	staleRoot  dogma.AggregateRoot // root held by the handler, if no longer the same as root
 	now        time.Time
 	exists     bool
 	destroyed  bool
@@ -37,6 +38,10 @@ func (s *scope) Destroy() {
 		return
 	}
 
+	if s.staleRoot == nil {
+		s.staleRoot = s.root
+	}
+
 	s.root = s.config.Handler().New()
 	s.exists = false
 	s.destroyed = true
@@ -108,6 +113,21 @@ func (s *scope) RecordEvent(m dogma.Event) {
 		},
 	)
 
+	if s.staleRoot != nil {
+		// The handler does not know about the new root that was created by
+		// Destroy(), but the event must be visible to it nonetheless.
+		panicx.EnrichUnexpectedMessage(
+			s.config,
+			"AggregateRoot",
+			"ApplyEvent",
+			s.staleRoot,
+			m,
+			func() {
+				s.staleRoot.ApplyEvent(m)
+			},
+		)
+	}
+
 	env := s.command.NewEvent(
 		s.messageIDs.Next(),
 		m,
-- 
2.43.0


From 78b178cf1cae46357b43c20d5854f712dfbe9766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:09:19 +0000
Subject: [PATCH 02/13] fix: notify observers of one fact at a time when
 compacting during handling

---
 engine/internal/projection/controller.go |  6 ++++++
 engine/internal/projection/observer.go   | 20 ++++++++++++++++++++
 2 files changed, 26 insertions(+)
 create mode 100644 engine/internal/projection/observer.go

diff --git a/engine/internal/projection/controller.go b/engine/internal/projection/controller.go
index 3289cbe..a20b2a6 100644
--- a/engine/internal/projection/controller.go
+++ b/engine/internal/projection/controller.go
@@ -82,6 +82,12 @@ func (c *Controller) Handle(
 
 	handler := c.Config.Handler()
 
+	if c.CompactDuringHandling {
+		// Both the event handler and the compaction that occurs in parallel may
+		// cause notifications.
+		obs = &serialObserver{next: obs}
+	}
+
 	s := &scope{
 		config:   c.Config,
 		observer: obs,
diff --git a/engine/internal/projection/observer.go b/engine/internal/projection/observer.go
new file mode 100644
index 0000000..273cb3f
--- /dev/null
+++ b/engine/internal/projection/observer.go
@@ -0,0 +1,20 @@
+package projection
+
+import (
+	"sync"
+
+	"github.com/dogmatiq/testkit/fact"
+)
+
+// serialObserver is a fact.Observer that can be notified by several goroutines
+// at once. It notifies another observer of one fact at a time.
+type serialObserver struct {
+	m    sync.Mutex
+	next fact.Observer
+}
+
+func (o *serialObserver) Notify(f fact.Fact) {
+	o.m.Lock()
+	defer o.m.Unlock()
+	o.next.Notify(f)
+}
-- 
2.43.0


From 832b1b6f4218fd9ab312fbc781cbdb00bb0f7e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:17:09 +0000
Subject: [PATCH 03/13] fix: compact projections on the first tick regardless
 of the engine time

---
 engine/internal/projection/controller.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/engine/internal/projection/controller.go b/engine/internal/projection/controller.go
index a20b2a6..cdfcd8c 100644
--- a/engine/internal/projection/controller.go
+++ b/engine/internal/projection/controller.go
@@ -25,7 +25,8 @@ type Controller struct {
 	Config                configkit.RichProjection
 	CompactDuringHandling bool
 
-	lastCompact time.Time
+	hasCompacted bool
+	lastCompact  time.Time
 }
 
 // HandlerConfig returns the config of the handler that is managed by this
@@ -40,7 +41,8 @@ func (c *Controller) Tick(
 	obs fact.Observer,
 	now time.Time,
 ) ([]*envelope.Envelope, error) {
-	if now.Sub(c.lastCompact) >= CompactInterval {
+	if !c.hasCompacted || now.Sub(c.lastCompact) >= CompactInterval {
+		c.hasCompacted = true
 		c.lastCompact = now
 
 		obs.Notify(fact.ProjectionCompactionBegun{
-- 
2.43.0


From f5d2bab141862d7a732b78b3a38af24b65a1cd07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:19:28 +0000
Subject: [PATCH 04/13] fix: propagate panics of parallel compactions to the
 caller

---
 engine/internal/projection/controller.go | 72 ++++++++++++++++--------
 1 file changed, 50 insertions(+), 22 deletions(-)

diff --git a/engine/internal/projection/controller.go b/engine/internal/projection/controller.go
index cdfcd8c..3e60a12 100644
--- a/engine/internal/projection/controller.go
+++ b/engine/internal/projection/controller.go
@@ -117,7 +117,7 @@ func (c *Controller) Handle(
 		return nil, nil
 	}
 
-	compactResult := make(chan error, 1)
+	compactResult := make(chan compaction, 1)
 
 	if c.CompactDuringHandling {
 		// Ensure that notification of facts occurs in the main goroutine as
@@ -130,7 +130,15 @@ func (c *Controller) Handle(
 		// handling the message. This is intended to ensure the implementation
 		// can actually handle such parallelism, which is required by the spec.
 		go func() {
-			compactResult <- c.Config.Handler().Compact(
+			var result compaction
+			defer func() {
+				// Don't allow a panic within this goroutine to terminate the
+				// process, it's propagated to the caller below.
+				result.panicValue = recover()
+				compactResult <- result
+			}()
+
+			result.err = c.Config.Handler().Compact(
 				ctx,
 				&scope{
 					config:   c.Config,
@@ -143,31 +151,44 @@ func (c *Controller) Handle(
 		close(compactResult)
 	}
 
-	var ok bool
-	panicx.EnrichUnexpectedMessage(
-		c.Config,
-		"ProjectionMessageHandler",
-		"HandleEvent",
-		handler,
-		env.Message,
-		func() {
-			ok, err = handler.HandleEvent(
-				ctx,
-				res,
-				nil,       // current version
-				[]byte{1}, // next version
-				s,
-				env.Message.(dogma.Event),
-			)
-		},
+	var (
+		ok        bool
+		compacted compaction
 	)
 
-	compactErr := <-compactResult
+	func() {
+		// Always wait for the compaction to end, even if the handler panics.
+		defer func() {
+			compacted = <-compactResult
+		}()
+
+		panicx.EnrichUnexpectedMessage(
+			c.Config,
+			"ProjectionMessageHandler",
+			"HandleEvent",
+			handler,
+			env.Message,
+			func() {
+				ok, err = handler.HandleEvent(
+					ctx,
+					res,
+					nil,       // current version
+					[]byte{1}, // next version
+					s,
+					env.Message.(dogma.Event),
+				)
+			},
+		)
+	}()
+
+	if compacted.panicValue != nil {
+		panic(compacted.panicValue)
+	}
 
 	if c.CompactDuringHandling {
 		obs.Notify(fact.ProjectionCompactionCompleted{
 			Handler: c.Config,
-			Error:   compactErr,
+			Error:   compacted.err,
 		})
 	}
 
@@ -185,9 +206,16 @@ func (c *Controller) Handle(
 
 	// Finally we return the compaction error only if there was no other more
 	// relevant error.
-	return nil, compactErr
+	return nil, compacted.err
 }
 
 // Reset does nothing.
 func (c *Controller) Reset() {
 }
+
+// compaction is the result of a compaction that occurs in parallel with the
+// handling of an event.
+type compaction struct {
+	err        error
+	panicValue any
+}
-- 
2.43.0


From 0fdf30f82883ee75f18e2d2af465784cc002f3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:28:10 +0000
Subject: [PATCH 05/13] fix: clear the compaction schedule when the engine is
 reset

---
 engine/internal/projection/controller.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/engine/internal/projection/controller.go b/engine/internal/projection/controller.go
index 3e60a12..2b4d35d 100644
--- a/engine/internal/projection/controller.go
+++ b/engine/internal/projection/controller.go
@@ -209,8 +209,10 @@ func (c *Controller) Handle(
 	return nil, compacted.err
 }
 
-// Reset does nothing.
+// Reset clears the state of the controller.
 func (c *Controller) Reset() {
+	c.hasCompacted = false
+	c.lastCompact = time.Time{}
 }
 
 // compaction is the result of a compaction that occurs in parallel with the
-- 
2.43.0


From d6cec9bd425ac26cda6ab685af405a0433458237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:40:19 +0000
Subject: [PATCH 06/13] fix: generate the IDs of dispatched messages while the
 engine is locked

---
 engine/engine.go | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/engine/engine.go b/engine/engine.go
index 9f22317..803008b 100644
--- a/engine/engine.go
+++ b/engine/engine.go
@@ -187,18 +187,19 @@ func (e *Engine) Dispatch(
 	options ...OperationOption,
 ) error {
 	mt := message.TypeOf(m)
-	id := e.messageIDs.Next()
 	oo := newOperationOptions(e, options)
 
-	env, err := message.MapByKindOfWithErr(
+	newEnvelope, err := message.MapByKindOfWithErr(
 		m,
-		func(m dogma.Command) (*envelope.Envelope, error) {
-			return envelope.NewCommand(id, m, oo.now),
-				m.Validate(validation.CommandValidationScope())
+		func(m dogma.Command) (func(string) *envelope.Envelope, error) {
+			return func(id string) *envelope.Envelope {
+				return envelope.NewCommand(id, m, oo.now)
+			}, m.Validate(validation.CommandValidationScope())
 		},
-		func(m dogma.Event) (*envelope.Envelope, error) {
-			return envelope.NewEvent(id, m, oo.now),
-				m.Validate(validation.EventValidationScope())
+		func(m dogma.Event) (func(string) *envelope.Envelope, error) {
+			return func(id string) *envelope.Envelope {
+				return envelope.NewEvent(id, m, oo.now)
+			}, m.Validate(validation.EventValidationScope())
 		},
 		nil,
 	)
@@ -210,6 +211,15 @@ func (e *Engine) Dispatch(
 		panic(fmt.Sprintf("the %s message type is not consumed by any handlers", mt))
 	}
 
+	err = e.m.Lock(ctx)
+	if err == nil {
+		defer e.m.Unlock()
+	}
+
+	// The message ID is generated after the engine is locked. Otherwise, a
+	// concurrent call to Reset() could cause the ID to be used again.
+	env := newEnvelope(e.messageIDs.Next())
+
 	oo.observers.Notify(
 		fact.DispatchCycleBegun{
 			Envelope:            env,
@@ -219,9 +229,7 @@ func (e *Engine) Dispatch(
 		},
 	)
 
-	err = e.m.Lock(ctx)
 	if err == nil {
-		defer e.m.Unlock()
 		err = e.dispatch(ctx, oo, env)
 	}
 
-- 
2.43.0


From be5ca9b9b2109c0ec2b41c8e267a547d30177a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:15:48 +0000
Subject: [PATCH 07/13] fix: run all cleanup functions of a check and keep
 panics when one of them stops

---
 expectation.satisfy.go | 42 ++++++++++++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 14 deletions(-)

diff --git a/expectation.satisfy.go b/expectation.satisfy.go
index d4e85c9..d30cbab 100644
--- a/expectation.satisfy.go
+++ b/expectation.satisfy.go
@@ -76,18 +76,8 @@ func (p *satisfyPredicate) Ok() bool {
 }
 
 func (p *satisfyPredicate) Done() {
-	defer func() {
-		switch r := recover().(type) {
-		case abortSentinel:
-			return // keep to see coverage
-		case nil:
-			return // keep to see coverage
-		default:
-			panic(r)
-		}
-	}()
-
 	defer p.satisfyT.close()
+	defer recoverAbort()
 
 	p.satisfyT.caller = callerName(0)
 	p.pred(&p.satisfyT)
@@ -156,6 +146,19 @@ type SatisfyT struct {
 // methods.
 type abortSentinel struct{}
 
+// recoverAbort recovers from a panic caused by SatisfyT.FailNow() and similar
+// methods. Any other panic is left to propagate. It must be deferred directly.
+func recoverAbort() {
+	switch r := recover().(type) {
+	case abortSentinel:
+		return // keep to see coverage
+	case nil:
+		return // keep to see coverage
+	default:
+		panic(r)
+	}
+}
+
 // Cleanup registers a function to be called when the test is complete. Cleanup
 // functions will be called in last added, first called order.
 func (t *SatisfyT) Cleanup(fn func()) {
@@ -362,11 +365,22 @@ func (t *SatisfyT) explain(fn string) {
 	}
 }
 
-// close calls any functions registered via Cleanup().
+// close calls any functions registered via Cleanup(), including those that are
+// registered by the cleanup functions themselves.
 func (t *SatisfyT) close() {
-	for i := len(t.cleanup) - 1; i >= 0; i-- {
-		t.cleanup[i]()
+	n := len(t.cleanup)
+	if n == 0 {
+		return
 	}
+
+	fn := t.cleanup[n-1]
+	t.cleanup = t.cleanup[:n-1]
+
+	// Call the remaining functions even if this one panics.
+	defer t.close()
+	defer recoverAbort()
+
+	fn()
 }
 
 // findFrame searches, starting after skip frames, for the first caller frame
-- 
2.43.0


From 7ace5c3723ff509f67a5174b75742821a7b4432e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:19:51 +0000
Subject: [PATCH 08/13] fix: examine the whole call stack when locating a panic

---
 location/location.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/location/location.go b/location/location.go
index e57e260..2287f00 100644
--- a/location/location.go
+++ b/location/location.go
@@ -203,15 +203,23 @@ func eachFrame(skip int, fn func(fr runtime.Frame) bool) {
 
 	for {
 		count := runtime.Callers(skip, pointers[:])
+		if count == 0 {
+			return
+		}
+
 		iter := runtime.CallersFrames(pointers[:count])
 		skip += count
 
 		for {
-			fr, _ := iter.Next()
+			fr, more := iter.Next()
 
 			if fr.PC == 0 || !fn(fr) {
 				return
 			}
+
+			if !more {
+				break
+			}
 		}
 	}
 }
-- 
2.43.0


From e928bf8d9638b0a40ab6cd7381442558b09c5760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:20:35 +0000
Subject: [PATCH 09/13] fix: locate the definitions of methods that are called
 via compiler-generated wrappers

---
 location/location.go | 64 +++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 63 insertions(+), 1 deletion(-)

diff --git a/location/location.go b/location/location.go
index 2287f00..f0b6c4b 100644
--- a/location/location.go
+++ b/location/location.go
@@ -117,7 +117,69 @@ func OfMethod(recv any, m string) Location {
 		panic("method does not exist")
 	}
 
-	return ofFunc(rm.Func)
+	loc := ofFunc(rm.Func)
+
+	if loc.File == autogenerated {
+		// The compiler generates wrapper methods when a method with a value
+		// receiver is called via a pointer, and for methods promoted from
+		// embedded fields.
+		if def, ok := ofMethodDefinition(rt, m); ok {
+			return def
+		}
+	}
+
+	return loc
+}
+
+// autogenerated is the name of the file in which the compiler claims to have
+// found the functions that it generates.
+const autogenerated = "<autogenerated>"
+
+// ofMethodDefinition returns the location of the method m on rt, or on the
+// shallowest of its embedded fields that defines such a method.
+func ofMethodDefinition(rt reflect.Type, m string) (Location, bool) {
+	queue := []reflect.Type{rt}
+	seen := map[reflect.Type]struct{}{}
+
+	for len(queue) != 0 {
+		rt := queue[0]
+		queue = queue[1:]
+
+		if rt.Kind() == reflect.Pointer {
+			rt = rt.Elem()
+		}
+
+		if _, ok := seen[rt]; ok {
+			continue
+		}
+		seen[rt] = struct{}{}
+
+		if rt.Kind() == reflect.Interface {
+			if _, ok := rt.MethodByName(m); ok {
+				// The method depends on the value of an embedded interface.
+				return Location{}, false
+			}
+			continue
+		}
+
+		for _, t := range []reflect.Type{rt, reflect.PointerTo(rt)} {
+			if rm, ok := t.MethodByName(m); ok {
+				if loc := ofFunc(rm.Func); loc.File != autogenerated {
+					return loc, true
+				}
+			}
+		}
+
+		if rt.Kind() == reflect.Struct {
+			for i := 0; i < rt.NumField(); i++ {
+				if f := rt.Field(i); f.Anonymous {
+					queue = append(queue, f.Type)
+				}
+			}
+		}
+	}
+
+	return Location{}, false
 }
 
 // OfCall returns the location where its caller was called itself.
-- 
2.43.0


From 585d5b52573705f6280bcc40b3528e53902abf9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:28:33 +0000
Subject: [PATCH 10/13] fix: log message IDs that contain formatting verbs
 literally

---
 fact/logger.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fact/logger.go b/fact/logger.go
index c5d353f..99a677c 100644
--- a/fact/logger.go
+++ b/fact/logger.go
@@ -534,13 +534,13 @@ func (l *Logger) log(
 	l.Log(logging.String(
 		[]logging.IconWithLabel{
 			logging.MessageIDIcon.WithLabel(
-				formatMessageID(messageID),
+				"%s", formatMessageID(messageID),
 			),
 			logging.CausationIDIcon.WithLabel(
-				formatMessageID(causationID),
+				"%s", formatMessageID(causationID),
 			),
 			logging.CorrelationIDIcon.WithLabel(
-				formatMessageID(correlationID),
+				"%s", formatMessageID(correlationID),
 			),
 		},
 		icons,
-- 
2.43.0


From 2161bfd8078a87aa4b46ce17f798028828ddeeed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:14:14 +0000
Subject: [PATCH 11/13] fix: separate the arguments of messages logged by
 checks with spaces

---
 expectation.satisfy.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/expectation.satisfy.go b/expectation.satisfy.go
index d30cbab..59315bd 100644
--- a/expectation.satisfy.go
+++ b/expectation.satisfy.go
@@ -315,8 +315,8 @@ func (t *SatisfyT) Skipped() bool {
 
 // log adds a log message.
 func (t *SatisfyT) log(args []any) {
-	m := fmt.Sprint(args...)
-	t.messages = append(t.messages, m)
+	m := fmt.Sprintln(args...)
+	t.messages = append(t.messages, m[:len(m)-1])
 }
 
 // logf formats and adds a log message.
-- 
2.43.0


From 8a3786bc7549530520bd321a6fc4cf611fc8d01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:18:02 +0000
Subject: [PATCH 12/13] fix: treat loops over functions within closures as
 anonymous when rendering locations

---
 location/location.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/location/location.go b/location/location.go
index f0b6c4b..3a512d8 100644
--- a/location/location.go
+++ b/location/location.go
@@ -70,7 +70,7 @@ func (l Location) FileLine() (_ string, ok bool) {
 	), true
 }
 
-var closurePattern = regexp.MustCompile(`\.func\d+(\.\d+)*$`)
+var closurePattern = regexp.MustCompile(`\.func\d+(\.\d+)*(-range\d+)?$`)
 
 func (l Location) isNamedFunc() bool {
 	if l.Func == "" {
-- 
2.43.0


From 2054052271001517544c4f75c1f50164f87196d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:18:02 +0000
Subject: [PATCH 13/13] fix: return the number of bytes written when writing a
 report fails

---
 report.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/report.go b/report.go
index 0f1cd26..e2f4719 100644
--- a/report.go
+++ b/report.go
@@ -99,9 +99,10 @@ func (r *Report) Append(sr *Report) {
 }
 
 // WriteTo writes the report to the given writer.
-func (r *Report) WriteTo(next io.Writer) (_ int64, err error) {
+func (r *Report) WriteTo(next io.Writer) (n int64, err error) {
 	defer must.Recover(&err)
 	w := count.NewWriter(next)
+	defer func() { n = w.Count64() }()
 
 	if r.Ok {
 		must.WriteString(w, "✓ ")
-- 
2.43.0

